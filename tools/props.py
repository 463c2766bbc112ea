"""The single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=None, note=None, level='model_checking', claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe,
                  technique=technique, note=note, level=level, claimed=claimed, reason=reason))


EXH = 'exhaustive bounded exploration of the real code against a reference model'

prop('R01', 'Frames are decoded exactly as they are stored',
     'Reading a well formed DRX, DRX8, TBX, COR, DR spectrometer or VDIF frame returns every header field and every sample with exactly the value stored in '
     'the file, in both the floating point and the integer sample readers. The result does not depend on which other frames, formats or frame sizes were read '
     'earlier in the same process.',
     ['inputs', 'histories'], 'all frames of all supported formats and modes, and all orders of reading them',
     'A test reads a few frames of one recorded file; the decoders work through lookup tables, bit fields and remembered frame sizes, where one wrong entry or one stale '
     'size shows only for particular bytes or particular orders of reading.',
     ['lsl/reader/drx.cpp', 'lsl/reader/drx8.cpp', 'lsl/reader/tbx.cpp', 'lsl/reader/cor.cpp', 'lsl/reader/drspec.cpp', 'lsl/reader/vdif.cpp', 'lsl/reader/gofast.cpp',
      'lsl/reader/drx.py', 'lsl/reader/drx8.py', 'lsl/reader/tbx.py', 'lsl/reader/cor.py', 'lsl/reader/drspec.py', 'lsl/reader/vdif.py'],
     [('frame readers', 'read_frame()/read_frame_ci8() in lsl/reader/*.py over lsl/reader/*.cpp')],
     observe='values returned by the read_frame functions',
     technique=EXH + ': complete products of payload byte x position, header bit patterns, modes and reading orders',
     note='Decodes every byte value at every payload position of every mode and every one-bit header pattern; combinations of header patterns beyond one field at a time are not enumerated.')

prop('R02', 'Damaged files are reported, never misread',
     'When a file of frames is cut short, has a damaged sync word or other corrupted header bytes, or its handle fails, the frame readers report it with the package\'s documented '
     'end-of-file, sync or I/O errors and never crash or loop. Every undamaged frame that is reached is still returned exactly as stored, and a reader that raises leaves the '
     'file where reading can be resumed.',
     ['inputs', 'fault_sequences'], 'all truncation points, single corrupted header bytes, short garbage bursts and read failures',
     'Tests cover one hand-picked truncation or bad sync word per format; the number of places a file can be cut or corrupted is the size of the file.',
     ['lsl/reader/drx.cpp', 'lsl/reader/drx8.cpp', 'lsl/reader/tbx.cpp', 'lsl/reader/cor.cpp', 'lsl/reader/drspec.cpp', 'lsl/reader/vdif.cpp', 'lsl/reader/errors.py'],
     [('error paths of the frame readers', 'read_frame() in lsl/reader/*.py, sync and end-of-file handling in lsl/reader/*.cpp')],
     observe='return values and exceptions of read_frame, file position afterwards',
     technique='exhaustive fault enumeration on the real readers: every truncation length, every header byte value, every failing read call',
     note='Exhaustive for three-frame files of each format; garbage does not itself contain a sync word.')

prop('R03', 'Ring buffers deliver frames in time order, once, with gaps filled',
     'For any order of arrival, the frame ring buffers hand back sets of frames in increasing time order, each time at most once and each holding every expected frame exactly once. '
     'The first copy received of a frame is delivered unchanged, frames that never arrived are zero-filled and flagged invalid, and frames older than what was already delivered are dropped. '
     'The buffer\'s counts of full, partial, missing and dropped frames agree with that.',
     ['histories'], 'all interleavings of appending frames, fetching, flushing and resetting',
     'Tests feed one recorded file in order; late, duplicate, out-of-order and missing frames around a reset or flush are combinations no sample covers.',
     ['lsl/reader/buffer.py'],
     [('ring buffer', 'FrameBufferBase.append/get/flush/reset and its DRX, DRX8, TBX, COR and VDIF subclasses')],
     state='segments held by time tag, last delivered time tag',
     observe='frames returned by get()/flush(), statistics attributes',
     technique=EXH + ': all operation histories to a depth, and breadth-first search over merged buffer states',
     note='All histories of 4-5 operations and merged-state search to depth 5-7 over 2-4 ids and 3-4 times, ring sizes 1-3; the COR buffer (65792 ids) on a few complete histories.')

prop('R06', 'Frame times convert, compare and add without losing precision',
     'The time of a frame is the instant given by its time tag and offset: its UNIX, Julian date, modified Julian date, calendar and time tag forms all denote that instant, '
     'creating a time from any of them gives it back, and adding, subtracting and comparing times agrees with exact arithmetic. The time of a VDIF frame follows in the same '
     'way from its reference epoch, seconds and frame number.',
     ['inputs'], 'all instants from 2010 to 2025 outside leap second days, to the clock tick',
     'Precision losses appear only at particular fractions of a second, at day and month boundaries and after leap seconds; tests use a handful of times.',
     ['lsl/reader/base.py', 'lsl/reader/vdif.py', 'lsl/astro.py'],
     [('FrameTimestamp', 'lsl/reader/base.py'), ('frame time', 'time property of the Frame classes in lsl/reader')],
     observe='FrameTimestamp attributes and operators',
     technique=EXH + ': boundary-complete grid of instants against rational arithmetic',
     note='The grid crosses every boundary kind (tick, second, minute, day, month, year, leap second epoch) in all combinations but is not every tick of 15 years; leap second days themselves are excluded.')

prop('R07', 'A split file reads like the single file it came from',
     'A recording split over several files and opened as one gives, for any sequence of reads and seeks, the same bytes, positions and frames as the unsplit file, wherever the cuts are. '
     'Saving and restoring the file position leaves it where it was, also when an error interrupts.',
     ['histories', 'inputs'], 'all ways of cutting a file and all short operation sequences on it',
     'The cut can fall anywhere inside a frame, and reads can cross several parts; tests use one cut.',
     ['lsl/reader/utils.py'],
     [('SplitFileWrapper, FilePositionSaver', 'lsl/reader/utils.py')],
     observe='results of read/seek/tell and of the frame readers on the wrapped file',
     technique=EXH + ': all cuts x all operation sequences to a depth',
     note='6-byte files in 1-4 parts with all sequences of 3-4 operations of 21; all single cuts of multi-frame files of each format.')

prop('R04', 'Beam and spectrometer files read in pieces give every sample once, at its time',
     'Reading a DRX, DRX8 or DR spectrometer observation file through the data file objects, in pieces of any size and with any offsets and resets in between, gives every sample '
     'of every stream exactly once, in order, with the start time and duration reported by each read matching the samples returned. Lost or damaged frames are replaced by zeros '
     'and never shift later samples; the end of the file is reported only when all data have been returned.',
     ['histories', 'inputs'], 'all sequences of reads, offsets and resets on files with any one or two lost, swapped, repeated or damaged frames',
     'Tests read a short good file in one or two pieces; where a gap falls relative to the read boundary and the ring buffer decides which code runs.',
     ['lsl/reader/ldp.py', 'lsl/reader/buffer.py', 'lsl/reader/drx.py', 'lsl/reader/drspec.py'],
     [('DRXFile, DRX8File, DRSpecFile', 'read/offset/reset/read_frame in lsl/reader/ldp.py')],
     state='file position, frames held in the ring buffer, last time tag delivered',
     observe='(duration, start time, data) of read(), offset() results, EOFError',
     technique=EXH + ': all operation sequences on all single-fault files',
     note='Files of 12-34 slots with every position of one fault; sequences of 2-3 operations followed by reading to the end. Files hold at least 32 frames and frames arrive within the ring size.')

prop('R05', 'TBX and correlator files read in pieces give every sample once, at its time',
     'Reading a TBX or COR observation file through the data file objects, in pieces of any size and with any offsets and resets in between, gives every sample of every antenna or '
     'baseline and channel exactly once, in order, with the start time and duration reported by each read matching the samples returned. Lost or damaged frames are replaced by zeros '
     'and never shift later samples; the end of the file is reported only when all data have been returned.',
     ['histories', 'inputs'], 'all sequences of reads, offsets and resets on files with any one or two lost, swapped, repeated or damaged frames',
     'Tests read a short good file in one or two pieces; where a gap falls relative to the read boundary and the ring buffer decides which code runs.',
     ['lsl/reader/ldp.py', 'lsl/reader/buffer.py', 'lsl/reader/tbx.py', 'lsl/reader/cor.py'],
     [('TBXFile, CORFile', 'read/offset/reset/read_frame in lsl/reader/ldp.py')],
     state='file position, frames held in the ring buffer, last time tag delivered',
     observe='(duration, start time, data) of read(), offset() results, EOFError',
     technique=EXH + ': all operation sequences on all single-fault files',
     note='TBX files of 6-16 times x 2-3 channel blocks with every position of one fault; COR files with few integrations; sequences of 2-3 operations.')

prop('R08', 'Files describe themselves correctly, whatever their contents and starting point',
     'The functions that describe a file of frames - sample rate, filter code, beam, thread, channel and frame counts, frame size, first channel and frame count, data products, integration '
     'time - return the values the file was recorded with, whatever its mode, its order of streams and the frame it is positioned at, and leave the file position where it was. LWADataFile '
     'opens every well formed LWA observation file, also a short one or one that starts inside a frame, as the right kind of file and refuses anything else with a RuntimeError.',
     ['inputs'], 'all modes, stream sets, stream orders and starting frames of each format',
     'Tests describe one recorded file per format from its first frame.',
     ['lsl/reader/drx.py', 'lsl/reader/drx8.py', 'lsl/reader/tbx.py', 'lsl/reader/cor.py', 'lsl/reader/drspec.py', 'lsl/reader/vdif.py', 'lsl/reader/ldp.py'],
     [('get_* functions', 'lsl/reader/*.py'), ('LWADataFile', 'lsl/reader/ldp.py')],
     observe='return values and file position',
     technique=EXH + ': complete products of modes, stream sets, orders and starting frames',
     note='All small stream sets and orders; at most 3-4 streams, threads or blocks.')

prop('R09', 'Frame arithmetic acts on the data only and frames order by time',
     'Adding, subtracting, multiplying or dividing a frame by a number, an array or another frame, in place or not, acts element by element on the data and leaves headers, '
     'times and all other operands unchanged; unsupported operands are refused with the documented error. Frames and times compare and sort by the time of the frame.',
     ['inputs', 'histories'], 'all frame types, operators, operand kinds and short chains of operations',
     'Tests use one operator on one frame; sharing of data between frames shows only in chains of operations.',
     ['lsl/reader/base.py', 'lsl/reader/drspec.py'],
     [('frame operators', 'FrameBase in lsl/reader/base.py, Frame in lsl/reader/drspec.py')],
     observe='data, headers and times of frames after each operation',
     technique=EXH + ': all chains of 2-3 operations',
     note='All chains of length 2 (quick) and 3 (thorough) for 8 kinds of frame with fixed contents.')

prop('S01', 'A file lock has one holder, nests, and is always given back',
     'At any time at most one thread of one process holds a FileLock (or MemoryLock), however many threads, lock objects and processes use it. The holder can acquire it again and keeps it '
     'until it has released it as often; a thread that does not hold it cannot free it. A blocking acquire returns once the lock is free, non-blocking and timed ones report False without it, '
     'an error or the death of the holder frees it, and no schedule deadlocks.',
     ['schedules', 'histories', 'crash_points'], 'all thread schedules of small lock programs, all operation sequences of two processes, death of the holder',
     'Tests take and release a lock from one thread; mutual exclusion is a statement about all interleavings.',
     ['lsl/misc/file_lock.py'],
     [('FileLock, MemoryLock', 'acquire/release/locked in lsl/misc/file_lock.py')],
     state='owner, nesting depth, flock state of the lock file',
     observe='results of acquire() and locked() per thread and process',
     technique=EXH + ': line-level thread schedules up to a preemption bound under a controlled scheduler with virtual time',
     note='2 threads with 2 preemptions, 3 threads with 1 preemption, 2 processes with 5 operations. Line granularity; NFS semantics of flock are assumed.')

prop('S02', 'The file and memory caches keep exactly what was put in them',
     'A FileCache or MemoryCache behaves like a set of named files: what is read is what was last written or appended under that name, sizes, listing and errors for missing files agree, and '
     'errors inside an open file leave the cache usable. With a size limit, opening for writing removes the oldest files first until the limit is met, never the file being written and never more than needed. '
     'Concurrent users see whole operations.',
     ['histories', 'schedules'], 'all short sequences of cache operations and all schedules of two concurrent ones',
     'Tests write one file and read it back; eviction order, nesting, errors and concurrency only show in sequences.',
     ['lsl/misc/file_cache.py'],
     [('FileCache, MemoryCache', 'lsl/misc/file_cache.py')],
     state='contents and modification times of the cached files, lock state',
     observe='contents, sizes, listing, errors, files on disk',
     technique=EXH + ': all operation sequences against a dictionary model; line-level thread schedules up to a preemption bound',
     note='Sequences of 4-5 of 15 operations on 3 files; eviction sequences of 4-6 writes; 2 threads with 1-2 preemptions.')

prop('S03', 'Downloaded data files are complete or absent',
     'DataAccess returns the complete contents of a data file - from the installation, the main server or else the backup server - or raises RuntimeError. Whatever fails during a download or '
     'refresh (connection errors, truncation, bad compression or headers, the process dying at any point, another thread fetching the same file) no later read returns partial contents, '
     'a cached file is never lost to a failed refresh, and the next attempt with working servers succeeds.',
     ['crash_points', 'inputs', 'schedules'], 'all fault kinds of both servers, all crash points of a fetch, all schedules of two concurrent fetches',
     'Tests need the network and see it work; the failures only show when something fails at a specific point.',
     ['lsl/common/data_access.py', 'lsl/misc/file_cache.py'],
     [('DataAccess, download_file, check_url', 'lsl/common/data_access.py')],
     state='files of the data cache and their ages, state of the servers',
     observe='contents returned, exceptions, files left in the cache',
     technique=EXH + ': fault injection at every read and every line of the real code',
     note='20 behaviours per server, every executed line as crash point of the process (not of the machine), 1-2 preemptions.')

prop('S04', 'Configuration settings survive from session to session, whole and without loss',
     'A setting made and saved in one session has the same value and type in the next; settings saved by another session in the meantime are never overwritten, and the file of an older LSL version '
     'keeps its settings. A crash at any point of a save, or two sessions saving at once, leaves a complete set of settings, the old or a new one. Settings of the wrong type or name are refused unchanged, and '
     'temporary settings end with their block, also on errors, and are never saved.',
     ['histories', 'crash_points', 'schedules'], 'all short histories of two sessions, all crash points of a save, all schedules of two saves',
     'Tests save once and reload; lost updates and truncated files need two sessions or an interruption at a specific point.',
     ['lsl/config.py'],
     [('LSLConfigContainer, LSLConfigSubContainer', 'lsl/config.py')],
     state='settings on disk and in each session, time stamps, version in the file',
     observe='values seen by running and newly started sessions',
     technique=EXH + ': all histories of two sessions, every line of a save as crash point, line-level schedules of two saves',
     note='Histories of 4-5 operations on two parameters; string values that do not read as numbers; saves apart by more than the time resolution of the file system.')

prop('S05', 'Telemetry obeys the user and never disturbs what it measures',
     'While telemetry is disabled or ignored nothing is recorded, written or uploaded, and a disable lasts over sessions until enabled again. While it is active every completed tracked call is recorded exactly once, '
     'from any thread, and log files are deleted only after the server accepted them. Tracked functions, methods and classes return, raise and behave exactly as untracked ones, also when telemetry cannot be written.',
     ['histories', 'schedules', 'inputs'], 'all short histories of tracked calls and control calls, all schedules of two threads, all states of the upload',
     'Tests only call the functions; the opt-out is a promise about every later call and session.',
     ['lsl/misc/telemetry/__init__.py', 'lsl/misc/_telemetry_send.py'],
     [('telemetry client', 'lsl/misc/telemetry/__init__.py'), ('upload helper', 'lsl/misc/_telemetry_send.py')],
     state='active flag, persistent setting, pending counts, log files',
     observe='log files, uploads, results and exceptions of tracked calls',
     technique=EXH + ': all histories against a counter model, line-level schedules, whole sessions in processes',
     note='Histories of 5-6 of 9 operations, 2 threads with 1-2 preemptions, pairs of sessions.')

prop('S06', 'Console helpers show the right thing and never fail the task they accompany',
     'Colored text keeps every character and gives each the styles of the tags around it, whatever the text contains, and removing the color gives the plain text back. Progress bars keep their width and '
     'show the fraction done for any count, busy indicators report once and print nothing after being stopped, and log records reach exactly the console, files and handlers enabled at the time, subject to '
     'levels and filters.',
     ['inputs', 'histories'], 'all small tag trees, all counts, all short start/stop and logger histories',
     'Tests format one example of each.',
     ['lsl/common/color.py', 'lsl/common/progress.py', 'lsl/common/busy.py', 'lsl/logger.py'],
     [('colorfy, progress bars, busy indicators', 'lsl/common/color.py, progress.py, busy.py'), ('logger set up', 'lsl/logger.py')],
     observe='text produced, log contents',
     technique=EXH + ': complete small domains and all operation histories to a depth',
     note='Tag trees to depth 2-3; histories of 3-5 operations.')

prop('M01', 'Session definition files say what the project says',
     'A valid project rendered to a session definition file and parsed again has the same observer, project, session, observation and step settings, and renders to the same file again; rendering does not change it. '
     'The settings of an observation or step never depend on its neighbours. Exactly the projects within the limits of the station (IDs, tunings, filters, FEE/ASP settings, steps, overlaps, data volume, horizon) are valid, and '
     'others are never rendered. Times, durations, angles and frequencies mean the same in every accepted form.',
     ['inputs', 'histories'], 'all ordered pairs and triples of kinds of observation, all short sequences of steps, all pairs of session settings, both sides of every limit, all time formats',
     'Tests parse a dozen files with one observation each; leaks between observations and drift between renders need combinations.',
     ['lsl/common/sdf.py', 'lsl/common/_sdf_utils.py'],
     [('render, parse_sdf, validate', 'lsl/common/sdf.py'), ('parse_time', 'lsl/common/_sdf_utils.py')],
     state='settings of project, session, observations and steps',
     observe='settings after a round trip, file text, validity, exceptions',
     technique=EXH + ': complete enumeration of sequences of observation and step kinds against an independent description of each',
     note='30+6 kinds of observation in pairs and (thorough) triples; 12 kinds of step in sequences of 3; single-line texts.')

prop('M02', 'Interferometer definition files and their session files say what was asked',
     'A valid interferometer project rendered to a file and parsed again has the same observer, project, run, scan and phase center settings and renders to the same file; rendering does not change it and scans never affect '
     'each other. The session definition files made from a run hold, for every station, one valid observation per scan with its target, time, tunings, gain, filter, proper motion and phase centers. Exactly the runs within the '
     'limits are valid, and others are never rendered.',
     ['inputs', 'histories'], 'all ordered pairs and triples of kinds of scan, all short sequences of phase centers, all pairs of run settings, both sides of every limit',
     'Tests use a handful of one-scan files.',
     ['lsl/common/idf.py', 'lsl/common/sdf.py'],
     [('render, parse_idf, generate_sdfs, validate', 'lsl/common/idf.py')],
     state='settings of project, run, scans and phase centers',
     observe='settings after a round trip, file text, session files, validity, exceptions',
     technique=EXH + ': complete enumeration of sequences of scan and phase center kinds against an independent description of each',
     note='17 kinds of scan in pairs and triples; 5 kinds of phase center in sequences of 3; proper motions in steps of 0.1 mas/yr.')

prop('M03', 'Metadata tarballs are read as they are and nothing outside them is touched',
     'Session and observation specifications, command scripts, session metadata, ASP and dynamic MIBs read from a metadata tarball (or on their own) hold exactly the values in the file, in order, whatever other members there are, in '
     'any order or compression; a missing member gives the documented None, "unknown" or empty result or an error, and a truncated specification, script or dynamic MIB an error, never the contents of another file. What is returned '
     'always comes from the file that is at that name now. Reading any tarball, hostile ones included, opens and changes no file outside of its temporary directory, leaves nothing behind and does not hang.',
     ['inputs', 'histories', 'fault_sequences'], 'every field at its limits, all sequences of steps and commands, every truncation point, all subsets and orders of members, all short histories of replacing tarballs, every kind of hostile member',
     'Tests read one real tarball.',
     ['lsl/common/metabundle.py', 'lsl/common/_metabundle_utils.py', 'lsl/common/mcs.py', 'lsl/common/sdm.py'],
     [('read_ses_file, read_obs_file, read_cs_file, get_*, is_valid', 'lsl/common/metabundle.py'), ('_open_tarball, get_session_metadata, get_asp_configuration', 'lsl/common/_metabundle_utils.py'),
      ('MIB, MIBEntry', 'lsl/common/mcs.py'), ('parse_sdm, SDM.update_antennas', 'lsl/common/sdm.py')],
     state='contents of the files at each name and of the temporary directory',
     observe='values returned, exceptions, files opened or changed outside',
     technique=EXH + ': complete enumeration of packed files, member sets, orders, replacement histories and hostile members against independently packed values',
     note='Changed tarballs have a new modification time or size; command data without embedded NULs.')

prop('M04', 'MCS and NDP number formats and structures are converted faithfully',
     'A tuning word and its frequency, and a MJD/MPM pair and its datetime (in any time zone), convert into each other without loss; a delay or gain becomes a word within one step of it, the same number in the MCS and NDP byte '
     'orders. A C structure declaration gives fields with the offsets, sizes, dimensions and byte order a C compiler would use, flat lists become nested lists in row-major order, and a pointing correction is the right-handed '
     'rotation about its axis.',
     ['inputs'], 'all words of the 16 bit formats, all days, all short structure declarations and array shapes, a lattice of rotations',
     'Tests convert a handful of values.',
     ['lsl/common/mcs.py', 'lsl/common/ndp.py'],
     [('freq_to_word, word_to_freq, delay_to_ndpd, ndpd_to_delay, gain_to_ndpg, ndpg_to_gain', 'lsl/common/ndp.py'),
      ('delay_to_mcsd, mcsd_to_delay, gain_to_mcsg, mcsg_to_gain, mjdmpm_to_datetime, datetime_to_mjdmpm, parse_c_struct, flat_to_multi, apply_pointing_correction', 'lsl/common/mcs.py')],
     state='none: pure functions',
     observe='converted values',
     technique=EXH + ': complete enumeration of the input words, dates and declarations against independent formulas',
     note='Delays that fit 16 bits; gains from 0 to 1.')

prop('M05', 'A station is what its SSMIF says and knows where everything is',
     'A station read from a text or binary station static MIB connects every stand, antenna, FEE, cable, ARX channel and digitizer as the file says, whatever the wiring, with the values in the file, and leaves unused parts unconnected. '
     'Antennas come in digitizer order and selections hold exactly the members asked for. Geographic and geocentric positions, local coordinates, pointing, distances and cable delays and gains agree with their definitions. Copies (also pickled) '
     'equal the original in every setting, and stations that share antennas do not affect each other.',
     ['configurations', 'inputs', 'histories'], 'all wirings of small stations in text and binary form, a lattice of locations, all short histories of copying, dropping and using stations',
     'Tests load the stations that ship with the library.',
     ['lsl/common/stations.py'],
     [('parse_ssmif, Antenna, Stand, FEE, Cable, ARX', 'lsl/common/stations.py'), ('LWAStation: get_*, ecii, geocentric position, copies', 'lsl/common/stations.py')],
     state='the objects of one or two stations and which of them are alive',
     observe='attributes, selections, coordinates, delays',
     technique=EXH + ': all permutations of the wiring of small stations against the description they were written from, all histories to a depth',
     note='Stations of 2-3 stands; ASP settings indexed by stand; a lattice of 13x12x4 locations.')

prop('W01', 'Visibility files hold what was given to the writer',
     'Visibilities written as FITS IDI (standard, AIPS and extended), UVFITS or measurement set are read back with the value, baseline, polarization, frequency, time, integration time, source and antenna (in FITS IDI also the weight) they were given for, '
     'whatever the order of stands, baselines, data sets and polarizations and the kind of reference time. The (u,v,w) in a file are those of the baseline and the source at that time. A data set that lacks a polarization or '
     'differs in its baselines is refused rather than written wrongly.',
     ['inputs', 'histories', 'configurations'], 'all orders of stands, baselines and data sets, all sequences of pointings, all sets of polarizations and bands, all kinds of reference time, all ways of leaving out or repeating a data set',
     'Tests write one small file per format and compare some of its header entries.',
     ['lsl/writer/fitsidi.py', 'lsl/writer/uvfits.py', 'lsl/writer/measurementset.py', 'lsl/writer/virtual.py', 'lsl/imaging/utils.py'],
     [('Idi, Aips, ExtendedIdi', 'lsl/writer/fitsidi.py'), ('Uv', 'lsl/writer/uvfits.py'), ('Ms', 'lsl/writer/measurementset.py'), ('VirtualWriter', 'lsl/writer/virtual.py'),
      ('CorrelatedDataIDI, CorrelatedDataUV, CorrelatedDataMS', 'lsl/imaging/utils.py')],
     state='the calls made to the writer so far',
     observe='values read back with lsl.imaging.utils',
     technique=EXH + ': all orders and sequences of the calls of a writer within the bounds, written and read back with the real code',
     note='3-4 stands, up to 4 data sets and 3 bands.')

prop('I01', 'Visibilities stay with their baseline, polarization, weight and time',
     'Whatever sequence of appending, extending, sorting, selecting and copying is applied to visibility data sets, each visibility keeps its baseline, (u,v,w), weight and mask; selections by antenna index, stand number or (u,v) range hold exactly the '
     'baselines that qualify; integrations stay in time order. Conversions between linear, circular and Stokes products follow their definitions for every set of products and mask, and changing the phase center changes the '
     'phases and (u,v,w) by the delay between the two directions, so that going back restores them.',
     ['histories', 'inputs'], 'all short histories of the container operations, all sets of products and masks, all short sequences of phase centers',
     'Tests apply one operation to one data set.',
     ['lsl/imaging/data.py', 'lsl/imaging/utils.py'],
     [('PolarizationDataSet, VisibilityDataSet, VisibilityData', 'lsl/imaging/data.py'), ('convert_to_stokes, convert_to_linear, convert_to_circular', 'lsl/imaging/utils.py')],
     state='ordered list of baselines with their values, weights and masks',
     observe='contents of the containers',
     technique=EXH + ': all operation sequences to a depth on the real containers against a dictionary from baseline to value',
     note='6 baselines, 2 channels; histories of up to 4 operations quick, 5 thorough.')

prop('I02', 'Images show the sky that their visibilities describe',
     'The image made of a set of visibilities is their Fourier sum at each pixel, to the accuracy of the gridding, for every image size, resolution and range of w, whatever images were made before; a point source has its flux, and shows up at the pixel '
     'that the coordinates of the image (WCS, RA/dec., azimuth/altitude, overlays) give for it. Channels and polarizations that were not asked for, masked visibilities and baselines outside of the (u,v) plane do not contribute; '
     'several integrations add up. Weighting and tapering follow their definitions and leave the gridded data alone; inputs that do not fit are refused.',
     ['inputs', 'histories', 'configurations'], 'image geometries, ranges of w, source positions, selections, masks, and all short sequences of images and imaging calls',
     'Tests make one image of one file and do not look at its pixels.',
     ['lsl/imaging/utils.py', 'lsl/imaging/gridder.cpp', 'lsl/imaging/overlay.py'],
     [('build_gridded_image, ImgWPlus, get_image_radec, get_image_azalt', 'lsl/imaging/utils.py'), ('WProjection', 'lsl/imaging/gridder.cpp'), ('sources', 'lsl/imaging/overlay.py')],
     state='gridded visibilities and weights of an image',
     observe='pixels, coordinates and errors',
     technique=EXH + ': all combinations and short sequences on the real gridder against the Fourier sum evaluated directly',
     note='uv planes of 20 to 80 wavelengths, up to 150 visibilities; all weights are one.')

prop('I03', 'Simulated visibilities are those of the sources and baselines asked for',
     'Simulated visibilities and (u,v,w) are the sum over the sources above the horizon at the time of each integration, computed from the antenna positions, for each set of sources, source spectra and shapes, phase center, set and order of polarizations, '
     'baselines and channels, and do not depend on simulations done before on the same array; requests for antennas or channels that the array does not have are refused. Applying gains, noise or another array to data changes '
     'just what it says, by the amount it says, in a copy.',
     ['inputs', 'histories', 'configurations'], 'all sets of sources, orders of polarizations, baselines, channels, times and phase centers, and all short histories of simulations on one array',
     'Tests run one simulation of one catalog and check for shapes.',
     ['lsl/sim/vis.py', 'lsl/sim/simfast.cpp'],
     [('build_sim_array, build_sim_data, scale_data, shift_data, add_baseline_noise', 'lsl/sim/vis.py'), ('FastVis', 'lsl/sim/simfast.cpp')],
     state='simulation cache of the array',
     observe='visibilities, (u,v,w) and errors',
     technique=EXH + ': all combinations and histories of simulations on the real array against the sum over sources evaluated directly',
     note='5 antennas, 3 channels, up to 4 sources.')

prop('I04', 'Self-calibration takes out antenna errors; sources are found where they are',
     'For visibilities that differ from a model by antenna gains, phases or delays within the unambiguous range, self-calibration returns those terms relative to the reference antenna, whichever it is, data that have exactly the returned terms applied and '
     'agree with the model, and says that it converged only if all that it solves for has; its input is left alone. The point sources of an image are found at their positions with their fluxes, and the estimated background of an '
     'image that is constant, or has a source on a constant background, is that constant.',
     ['inputs', 'configurations'], 'all small combinations of antenna errors, methods, reference antennas, channels and baseline orders; a grid of sub-pixel positions; shapes and levels of images',
     'Tests run the calibration on one file and do not look at the values.',
     ['lsl/imaging/selfcal.py', 'lsl/imaging/analysis.py'],
     [('phase_only, delay_only, delay_and_phase', 'lsl/imaging/selfcal.py'), ('find_point_sources, estimate_background', 'lsl/imaging/analysis.py')],
     state='none: pure functions',
     observe='solutions, calibrated data, lists of sources',
     technique=EXH + ': all combinations of antenna errors put on known data and solved for by the real code',
     note='5 antennas, 6 channels, no noise.')

prop('F01', 'Visibilities, baselines and (u,v,w) are those of their antennas',
     'The correlators (from voltages or channelized data, linear or Stokes products) return for each pair of antennas the average over the windows of the data of the product of their spectra, corrected for the delay of cable and direction, with the documented '
     'frequencies, whatever the data type, transform length, overlap, window, product, clipping, order of antennas and number of samples. Lists of baselines hold each pair once in the documented order, and (u,v,w), hour angles and '
     '(u,v) tracks follow their definitions.',
     ['inputs', 'configurations'], 'all combinations of data type, transform length, overlap, window, product, clipping and phase center, all orders of antennas, all numbers of samples over a window, a lattice of hour angle, declination and latitude',
     'Tests mostly check the shape of the result for one data type and one setting.',
     ['lsl/correlator/fx.py', 'lsl/correlator/core.cpp', 'lsl/correlator/stokes.cpp', 'lsl/correlator/uvutils.py'],
     [('FXMaster, FXStokes, XMaster, XStokes, pol_to_pols', 'lsl/correlator/fx.py'), ('FEngine, XEngine2, XEngine3', 'lsl/correlator/core.cpp, lsl/correlator/stokes.cpp'), ('get_baselines, compute_uvw, compute_uv_track', 'lsl/correlator/uvutils.py')],
     state='none: pure functions',
     observe='visibilities, lists of baselines, (u,v,w)',
     technique=EXH + ': complete products of the settings compared with the definition of the visibility computed in double precision',
     note='2-3 stands, 4-8 channels, 1-5 overlapped transforms.')

prop('F02', 'Spectra, filter banks and beams are those of their signals',
     'Power and Stokes spectra (with and without window or polyphase filter bank) are the averages of the squared transforms over the windows that lie within the data and are free of clipping, for every data type, transform length and number of samples, '
     'whatever the order of antennas. Beams from integer or phase-and-sum beamforming add the antennas in use with the delays of their positions and cables to the direction asked for; a failed antenna or the other polarization '
     'never leaks into a beam.',
     ['inputs', 'configurations'], 'all data types, transform lengths, numbers of samples, windows and positions of a strong sample, all orders, statuses and polarizations of four antennas, a lattice of directions',
     'Tests mostly check the shape of the result for one data type and one length.',
     ['lsl/correlator/fx.py', 'lsl/correlator/spec.cpp', 'lsl/correlator/stokes.cpp', 'lsl/correlator/filterbank.py', 'lsl/misc/beamformer.py'],
     [('SpecMaster, StokesMaster', 'lsl/correlator/fx.py'), ('FPSD, PFBPSD', 'lsl/correlator/spec.cpp, lsl/correlator/stokes.cpp'), ('fft, fft2 ... fft32', 'lsl/correlator/filterbank.py'),
      ('calc_delay, int_delay_and_sum, phase_and_sum, circularize', 'lsl/misc/beamformer.py')],
     state='none: pure functions',
     observe='spectra, beams and delays',
     technique=EXH + ': complete products of the settings compared with the definition of the spectrum and beam in double precision',
     note='1-9 channels quick, 1-17 thorough; up to 4 antennas.')

prop('F03', 'Statistics, dedispersion and mathematical helpers follow their definitions',
     'Robust estimators and fits ignore outliers and masked points, do not depend on the order of the data, move with them and reduce along the axis asked for; fits reproduce exact lines and polynomials. Spectral kurtosis, its limits and the '
     'runs test follow their formulas and leave the numerical error handling as it was. Dedispersion aligns every channel or sample of the data, with those before and after taken into account when given, whatever the shape and '
     'length. Downsampling, smoothing, regridding, polar and decibel conversions, gains, flux densities and Gaussians agree with their definitions.',
     ['inputs'], 'all small data sets, masks, axes, shapes and lengths',
     'Tests use a few random data sets and one length each.',
     ['lsl/statistics/robust.py', 'lsl/statistics/kurtosis.py', 'lsl/statistics/stattests.py', 'lsl/misc/dedispersion.py', 'lsl/misc/mathutils.py', 'lsl/misc/rfutils.py', 'lsl/misc/scattering.py'],
     [('mean, mode, std, biweight_mean, linefit, polyfit', 'lsl/statistics/robust.py'), ('spectral_power, spectral_fft, get_limits', 'lsl/statistics/kurtosis.py'), ('wald_wolfowitz', 'lsl/statistics/stattests.py'),
      ('delay, incoherent, coherent', 'lsl/misc/dedispersion.py'), ('downsample, smooth, regrid, cpolar, crect, ndft, gaussian1d, gaussian2d', 'lsl/misc/mathutils.py'), ('dBi_to_gain and others', 'lsl/misc/rfutils.py')],
     state='none: pure functions',
     observe='returned values',
     technique=EXH + ': all multisets, masks, shapes and lengths within the bounds compared with the definitions written out independently',
     note='Multisets of up to 7 values; sphfit/sphval are not covered.')

prop('A01', 'Times and angles mean the same in all of their representations',
     'Every angle converts between degrees, radians, seconds, dms and hms, and every sum of hms values wraps, without losing its sign, a minute or an hour and with every field in its range. Every date converts to the right Julian day, weekday, '
     'UNIX time and zone time and back, fractions of seconds included. UTC, TAI, TT, TDB and the leap seconds between them are right on every day since 1972. transform.Time gives the same instant in every format it is asked for, '
     'whichever format it was given in, exactly for DP samples and MCS milliseconds. Values out of range are refused, and refused values change nothing.',
     ['inputs'], 'all minutes of all angles with seconds at and next to every boundary, all pairs of times to sum, all days and leap seconds since 1972, all zone offsets, all pairs of time formats, all combinations of faulty strings',
     'Tests convert a few angles and dates that do not fall on the boundaries where roundings disagree.',
     ['lsl/astro.py', 'lsl/transform.py'],
     [('dms, hms, date, zonedate', 'lsl/astro.py'), ('deg_to_dms, deg_to_hms, add_hms, add_secs_hms, range_hours', 'lsl/astro.py'), ('get_julian_day, get_date, get_day_of_week, date_to_zonedate, zonedate_to_date', 'lsl/astro.py'),
      ('leap_secs, utc_to_tai, tt_to_tdb and others', 'lsl/astro.py'), ('Time', 'lsl/transform.py')],
     state='none: pure functions and value objects',
     observe='converted values, refused values',
     technique=EXH + ': complete lattices of angles, days and formats compared with integer and rational arithmetic',
     note='Days with a leap second only at midnight.')

prop('A02', 'Positions mean the same in all coordinate systems',
     'Equatorial, galactic, ecliptic, horizontal, rectangular and geographical coordinates agree with spherical trigonometry everywhere on the sky and the Earth, the poles included, and every conversion (also a chain of them) can be undone. Precession, '
     'B1950 and apparent positions (proper motion included), sidereal times, separations, position angles and direction cosines follow their formulas. For every target, observer and time the rise, transit and set are the next ones, '
     'the altitude crosses zero or is largest at them, and None is returned exactly for targets that never rise or never set.',
     ['inputs'], 'a grid of positions with poles and meridians, observers from pole to pole, several times, all combinations for rise and set',
     'Tests use one observatory and a few bright sources.',
     ['lsl/astro.py', 'lsl/transform.py'],
     [('get_hrz_from_equ, get_equ_from_hrz, get_ecl_from_equ, get_gal_from_equ and inverses', 'lsl/astro.py'), ('get_equ_prec, get_apparent_posn, B1950_to_J2000', 'lsl/astro.py'), ('get_object_rst, get_solar_rst and others', 'lsl/astro.py'),
      ('get_angular_separation, get_rel_posn_angle, dir_cos, get_rect_from_geo', 'lsl/astro.py'), ('CelestialPosition, GeographicalPosition, PointingDirection', 'lsl/transform.py')],
     state='none: pure functions and value objects',
     observe='converted positions and times',
     technique=EXH + ': complete grids of positions, observers and times compared with independently written trigonometry and inverted',
     note='0.02 degrees against the independent formulas, 1e-5 degrees or better for round trips.')

prop('M06', 'Values given on the command line mean what they say or are refused',
     'The conversions of lsl.misc.parser return exactly the number, frequency, wavelength, date, time of day, angle, or list that a string names, in the units documented (MHz, m, days, milliseconds past midnight), with ranges expanded completely, '
     'in order and with leading zeros kept, and refuse every other string with an argument error; no other exception is ever raised and no malformed string is silently taken for a value.',
     ['inputs'], 'all short strings over the characters of numbers, all seconds of a day, all days of 1972-2060, all pairs of units, all lists of up to three items',
     'Tests check a few good and bad strings per conversion.',
     ['lsl/misc/parser.py'],
     [('positive_int, positive_float and others', 'lsl/misc/parser.py'), ('frequency, frequency_range, wavelength, wavelength_range', 'lsl/misc/parser.py'), ('date, mjd, time, mpm, hours, degrees', 'lsl/misc/parser.py'),
      ('csv_int_list, csv_baseline_list, csv_hostname_list', 'lsl/misc/parser.py')],
     state='none: pure functions',
     observe='parsed values and refused strings',
     technique=EXH + ': all strings within the bounds compared with a reference of the formats',
     note='Lists of two items (quick) or three (thorough) for baselines and hosts.')

prop('S07', 'Log messages reach every enabled destination once and nothing else',
     'After every history of enabling, replacing and disabling the console, the log file and further handlers, of changing the level, of adding and removing filters and of capturing warnings, a message that passes the level and the filters '
     'arrives exactly once, whole and without console colors in files, at every enabled destination whose level admits it, and at no other; with the console disabled nothing is printed; a log file that cannot be opened leaves the one in use in '
     'place; messages of several threads are never lost or mixed.',
     ['histories', 'schedules'], 'all sequences of three (thorough: four) out of 22 operations, each followed by seven messages of different levels and modules',
     'Tests enable one destination at a time in a fixed order.',
     ['lsl/logger.py'],
     [('ThreadedHandler, add_handler, capture_warnings', 'lsl/logger.py'), ('enable_console_logging, enable_file_logging, add_filter and others', 'lsl/logger.py')],
     state='enabled destinations and their levels, level, filters, captured warnings',
     observe='lines on the console, in files and at handlers',
     technique=EXH + ': all histories of operations on a freshly loaded module compared with a model of the destinations',
     note='Messages that match only one of several filters are left open.')

prop('W02', 'VDIF and DRX frames and SDFITS spectra are written as they were given',
     'Every VDIF frame written holds its samples, in order and unchanged, its station, epoch, second and frame number of its time for every number of bits and for real and complex data, and is read back as such. Every simulated DRX frame holds its '
     'beam, tuning, polarization, decimation, time tag, flags and samples (rounded and clipped to four bits), and a frame that is not valid is never written. Simulated files have all their frames, contiguous in time, with the tones at the documented '
     'frequencies. SDFITS files give every spectrum under its own time, beam and polarization whatever the order in which they were given and however close in time, or are refused if one is missing.',
     ['inputs', 'histories'], 'all sample values, bit depths and header fields, every frame of a second, all epochs, all orders of giving spectra of two times and all evenly spaced sets of polarizations',
     'Tests write one frame or one spectrum with one set of parameters.',
     ['lsl/writer/vdif.py', 'lsl/sim/drx.py', 'lsl/sim/ndp.py', 'lsl/writer/sdfits.py'],
     [('Frame', 'lsl/writer/vdif.py'), ('SimFrame, frame_to_frame', 'lsl/sim/drx.py'), ('basic_signal', 'lsl/sim/ndp.py'), ('Sd', 'lsl/writer/sdfits.py')],
     state='data sets given to the SDFITS writer so far',
     observe='bytes and tables of the files',
     technique=EXH + ': complete products of the parameters written, taken apart byte by byte and compared with what was given',
     note='Two times and up to four polarizations for SDFITS.')

prop('A03', 'Catalogs and sky maps hold what their data files list',
     'Every source of every packaged catalog is found under its name and all its other names, at the position the file lists (to the precision listed, brought to J2000 where it is B1950), no source is lost or invented, and unknown names and '
     'catalogs are refused; the catalog factory hands out one and the same catalog for a name. Sky maps have the temperatures of the surveys at their frequencies, and a map projected for a site and time has exactly the pixels above the '
     'horizon, with their directions, positions and powers.',
     ['inputs', 'histories'], 'all rows of the seven packaged catalogs, all pixels of the two maps for several sites and times, all short histories of requests to the factory',
     'Tests look up three sources of one catalog and check that maps can be built.',
     ['lsl/catalog.py', 'lsl/skymap.py'],
     [('Catalog and the parse_file methods', 'lsl/catalog.py'), ('CatalogFactory', 'lsl/catalog.py'), ('SkyMapGSM, SkyMapLFSM, ProjectedSkyMap', 'lsl/skymap.py')],
     state='catalogs cached by the factory',
     observe='names, positions and aliases of entries, pixels above the horizon',
     technique=EXH + ': every row and pixel of the data files compared with independently written parsers and trigonometry',
     note='B1950 positions to 1 arcsecond, horizon coordinates to 0.06 degrees.')

prop('S08', 'Every module works on its own and leaves the process alone',
     'Every module of the package can be imported first in a fresh interpreter, and after any other one; every name that it lists as public exists and is imported with *; importing prints nothing and does not change the working '
     'directory, umask, locale, recursion limit, signal handlers, floating point error handling, or the standard output.',
     ['schedules', 'inputs'], 'all modules, and all ordered pairs of modules in the thorough check',
     'Tests import modules in the fixed order of the test files, after numpy and pytest have loaded most of the standard library.',
     ['lsl'],
     [('module imports and __all__', 'lsl/__init__.py'), ('__all__', 'lsl/reader/buffer.py'), ('imports', 'lsl/catalog.py')],
     state='modules imported so far',
     observe='success of the import, names, state of the process',
     technique=EXH + ': all modules (thorough: all ordered pairs) imported in fresh processes',
     note='Programs (__main__) are left out.')

prop('M07', 'Structured text headers are read back as they were written',
     'Whatever sequence of values, free-form lines, blank lines, rules and nested sections is put into a comment, box or text header, parse_header returns the same nested sections with the same values (types included), also when values contain '
     'colons or the comment characters, sections are empty or follow values, or data follow the header; every line starts with the comment, boxes are closed, and with a fixed width no line is longer and wrapped numbers are still read back.',
     ['histories', 'inputs'], 'all histories of up to five operations (thorough: six) for all styles, a catalog of values in all positions, all fixed widths to 60',
     'Tests read back a few short headers that start with one section.',
     ['lsl/common/header.py'],
     [('CommentHeader, BoxHeader, TextHeader', 'lsl/common/header.py'), ('parse_header', 'lsl/common/header.py')],
     state='open sections and contents so far',
     observe='the text and the parsed dictionary',
     technique=EXH + ': all sequences of operations up to a depth executed on the real classes and compared with a nested dictionary',
     note='Free-form lines are compared without their white space.')
