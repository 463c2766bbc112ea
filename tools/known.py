#!/opt/venv/bin/python
"""Rewrites known_findings.json from the list below (commit hashes looked up by subject in /repo)."""
import json, subprocess, os
FIXED = [
 ('R03', 'flush the ring buffers in time order', 'flush() handed out the segments in arrival order, not time order'),
 ('R03', 'zero-fill ring buffer segments that hold duplicate frames', 'a segment with a duplicate and a missing frame was returned without the fill frame'),
 ('R03', 'order COR frames by start channel and baseline when reordering', 'reordered COR segments interleaved start channels'),
 ('R03', 'report dropped frames from the ring buffer\'s append()', 'append() reported success for a late frame it dropped'),
 ('R03', 'keep ignoring bad DRX time tags after a ring buffer reset', 'after reset() DRX frames with bad time tags were accepted'),
 ('R01', 'find the size of a COR frame from the frame itself', 'COR frames were read with the frame size of the previous file'),
 ('R01', 'read TBX frames of every mode at the end of a file', 'the last TBX frames of a file, and TBX frames of some modes, could not be read'),
 ('R01', 'decode complex VDIF data in the 8-bit integer reader', 'complex VDIF data were returned as interleaved reals by the integer reader'),
 ('R02', 'refuse DR spectrometer frames with unknown data products', 'a corrupted format byte gave a frame without data and corrupted reference counts'),
 ('R01', 'decode the COR first channel and gain as unsigned', 'COR first channels above 32767 were negative'),
 ('R02', 'report read errors of the file handle as IOError', 'a failing file handle gave a SystemError'),
 ('R02', 'do not follow the mode of a TBX frame with a bad sync word', 'a TBX frame with a bad sync word changed the frame size used for the next frames'),
 ('R07', 'make SplitFileWrapper behave like one file', 'reads and seeks across several parts lost data or stopped early'),
 ('R06', 'count whole leap seconds', 'the number of leap seconds was truncated from a float, one short'),
 ('R06', 'normalize the pulsar MJD of a frame timestamp', 'pulsar_mjd could give a second of day of 86400 or a fractional second of 1'),
 ('R04', 'do not lose buffered data at the end of a file', 'the frames still in the ring buffer at the end of the file were dropped by the last read'),
 ('R04', 'zero-fill gaps in beam files without tuning 1, polarization X', 'gaps were not filled in files without the first stream and shifted later samples'),
 ('R04', 'report the end of a file that ends with a partial frame', 'a DRX file ending with a partial frame never reported its end'),
 ('R04', 'read DR spectrometer files past a damaged frame', 'a damaged spectrometer frame ended or garbled the read'),
 ('R05', 'offset into TBX and COR files from where the last read stopped', 'offset() ignored what had been read or buffered'),
 ('R05', 'read TBX files to their end', 'the last frames of a TBX file were not returned'),
 ('R05', 'fill gaps in TBX files with the time step of the file', 'gaps of TBX files were filled with a fixed time step'),
 ('R05', 'read TBX and COR files past a damaged frame', 'a damaged frame stopped reading'),
 ('R05', 'read a whole COR file when no duration is given', 'read() without a duration failed for COR files'),
 ('R08', 'recognize short LWA data files and files that start with a partial frame', 'LWADataFile refused short TBX/COR files and raised OSError for files that start inside a frame'),
 ('R08', 'count VDIF frames per second from any starting frame', 'get_frames_per_second returned 1 when started on the last frame of a second'),
 ('R09', 'report mismatched frames with the intended errors', 'building or combining mismatched frames raised AttributeError or NameError'),
 ('S01', 'make file locks exclude threads that share them and let them nest', 'threads sharing a FileLock all got it, nested acquires freed it early, processes with equal thread ids shared it'),
 ('S02', 'keep file caches within their size without hanging or losing the file in use', 'a failing open left the cache locked, directories in the cache made eviction loop forever, the file being appended to could be evicted'),
 ('S02', 'make the memory cache behave like the file cache', 'append overwrote the start, iteration gave one line, getmtime failed, reading a missing file created it, eviction was not oldest first'),
 ('S03', 'never cache an incomplete data file', 'truncated or interrupted downloads stayed in the cache and were returned from then on; a failed refresh deleted the file'),
 ('S03', 'report zeros when the metadata of a URL cannot be read', 'check_url returned the raw header when it could not be parsed'),
 ('S04', 'save the configuration whole and keep what other sessions saved', 'a crash during a save left a truncated file that made lsl unimportable, a second save in a session was abandoned, and other sessions\' settings were overwritten'),
 ('S04', 'do not report a KeyError inside of set_temp as an unknown parameter', 'a KeyError raised inside of a set_temp block became a ValueError'),
 ('S04', 'let configuration views set parameters by their full names', 'view.set() and set_temp() failed for names that view.get() accepts'),
 ('S05', 'make telemetry.ignore() stop the telemetry', 'ignore() had no effect'),
 ('S05', 'keep telemetry written within the same second', 'a second write within a second overwrote the first log'),
 ('S03', 'show the progress of downloads of unknown size', 'an interactive download without a size failed with a ZeroDivisionError'),
 ('S06', 'color text with backslashes, line breaks and unmatched braces', 'colorfy failed on backslashes (and so did colored progress bars), trailing braces and line breaks'),
 ('S06', 'stop the busy indicator before reporting the result', 'the indicator could print after its report, and stopping an idle BusyIndicatorPlus failed'),
 ('S06', 'keep progress bars within their width', 'bars grew beyond their width for counts above the maximum'),
 ('M01', 'accept astropy times in parse_time', 'parse_time refused every astropy Time'),
 ('M01', 'carry milliseconds that round up to a full second in parse_time', 'times with .9995 s or more, as text or datetime, raised ValueError'),
 ('M01', 'read time zone offsets with a one digit hour in parse_time', 'an offset of +5:30 was read as 53 hours'),
 ('M01', 'keep the settings of one observation or step out of the next in parse_sdf', 'beam-dipole, high dynamic range, gain, FEE/ASP, delays and comments of one observation or step leaked into the next'),
 ('M01', 'read a session flag of 0 as off in parse_sdf', 'SESSION_LOG_SCH 0 and the like switched the option on'),
 ('M01', 'keep the typed session list on projects from parse_sdf', 'parsed projects accepted anything as a session'),
 ('M01', 'render SDFs without changing the project or growing its comments', 'rendering prefixed the comments of the session, grew the project office lists and gave a different file each time'),
 ('M01', 'write FEE settings that apply to a single polarization of every stand', 'a uniform FEE setting for one polarization was not written'),
 ('M01', 'accept durations as astropy quantities', 'a Quantity as duration raised UnboundLocalError'),
 ('M01', 'accept astropy angles and frequencies when creating observations, steps, and scans', 'BeamStep(Angle, ...) and frequencies in MHz raised TypeError'),
 ('M01', 'report an invalid declination as a ValueError', 'an invalid declination raised NameError'),
 ('M01', 'create auto-filled projects', 'Project.autofilled raised NameError'),
 ('M02', 'keep the settings of one scan or phase center out of the next in parse_idf', 'gain, ASP filter, proper motion, phase center count and comments of one scan leaked into the next'),
 ('M02', 'keep the typed run list on projects from parse_idf', 'parsed projects accepted anything as a run'),
 ('M02', 'render IDFs without changing the project or growing its comments', 'rendering changed the comments and the project office lists and gave a different file each time'),
 ('M02', 'generate SDFs for scans without comments', 'a scan without comments raised TypeError'),
 ('M02', 'generate SDFs for runs without project office comments', 'a run without project office comments raised IndexError'),
 ('M02', 'carry the ASP filter of a scan over to the generated SDFs', 'the ASP filter was lost'),
 ('M02', 'wrap right ascensions moved past 0 hr by their proper motion', 'a source moving across 0 hr raised ValueError'),
 ('M01', 'validate steps and phase centers that are not part of an observation', 'validating a step of its own raised AttributeError'),
 ('M01', 'check the visibility of a step for the duration of that step', 'each step was checked for the duration of the whole observation'),
 ('M01', 'allow MAX_STP_N steps and refuse stepped observations without any', 'one step less than the maximum was refused; no steps at all raised ZeroDivisionError'),
 ('M01', 'refuse observations and sessions of the wrong type instead of dropping them', 'a list with one wrong entry was silently dropped'),
 ('M01', 'allow the spectrometer to be disabled with 0 as documented', 'setting the spectrometer channels to 0 raised ValueError'),
 ('M01', 'report unknown stands for the beam-dipole mode and use an integer NDP stand', 'an unknown stand raised UnboundLocalError'),
 ('M03', 'do not read a replaced metadata tarball from the cache of the old one', 'a tarball replaced at the same name was still read from the old one'),
 ('M03', 'only read regular files from inside a metadata tarball', 'links, absolute and ../ members were read from outside of the tarball; a fifo member hung the reader'),
 ('M03', 'do not parse an unrelated file when a metadata tarball misses a member', 'without a .ses, .cs, .txt or metadata member the last member was parsed instead; mindelay.txt was taken for the SDF'),
 ('M03', 'report truncated session specifications and command scripts', 'truncated files were read with zeros for what was missing'),
 ('M03', 'include DR5 in the MIB settings of a session specification', 'the DR5 settings were left out'),
 ('M03', 'do not read past the end of a short MIB entry', 'entries shorter than a record were filled from other memory'),
 ('M03', 'keep the zero bytes of binary MIB values', 'binary values with a zero byte were read as 0'),
 ('M03', 'read the DR5 settings of a station dynamic MIB', 'the DR5 settings were left out'),
 ('M03', 'allow a subsystem status to be printed', 'str() of a status raised TypeError or AttributeError'),
 ('M03', 'leave the original antennas alone in SDM.update_antennas', 'the antennas passed in were changed'),
 ('M03', 'report truncated station dynamic MIB files', 'a truncated file was read with zeros for what was missing'),
 ('M05', 'read per-stand AT3 settings from a text SSMIF', 'AT3 settings for single stands were replaced by the AT1 value'),
 ('M05', 'ignore trailing spaces in a text SSMIF', 'values followed by spaces were read with them or raised'),
 ('M05', 'drop the padding of ARX connector labels in a binary SSMIF', 'ARX connector labels of a binary SSMIF kept their NUL padding'),
 ('M05', 'only use the parts of a binary SSMIF that are filled in', 'empty array slots of a binary SSMIF were used and digitizer numbers were wrong'),
 ('M05', 'do not connect unused FEEs, cables, and digitizers to the last antenna', 'an unused part (antenna 0) was connected to the last antenna'),
 ('M05', 'use the ASP settings of its own stand for every cable', 'ASP attenuation was taken from another stand'),
 ('M05', 'keep the clock offset and ASP attenuation when a cable is copied', 'copied cables lost their clock offset and ASP attenuation'),
 ('M05', 'keep the beamformer delay and DRX gain when a station is copied', 'copied stations lost their beamformer delay and DRX gain'),
 ('M05', 'keep stands usable after a second station with their antennas is gone', 'stands raised ReferenceError after another station with the same antennas was dropped'),
 ('M05', 'use the response of filter 7 for Rev. I ARX boards', 'filter 7 of Rev. I boards gave the response of another filter'),
 ('M05', 'allow a station to be copied with copy.copy', 'copy.copy of a station raised'),
 ('W01', 'write the right dates to UVFITS files', 'dates of integrations in UVFITS files were off'),
 ('W01', 'write visibilities in the order of their own baselines', 'a later data set with its baselines in another order was written under the wrong baselines'),
 ('W01', 'write the antenna positions to measurement sets only once', 'antenna positions appeared once per data set'),
 ('W01', 'take the J2000 coordinates of a source as such for its (u,v,w)', '(u,v,w) were computed with J2000 coordinates taken for those of date or the other way around'),
 ('W01', 'give compute_uvw the hour angle in hours for virtual files', '(u,v,w) of virtual files used the hour angle in the wrong unit'),
 ('W01', 'name zenith pointings the same way everywhere in a file and list them once', 'zenith pointings got names that did not match between tables'),
 ('W01', 'read back stand numbers of more than three digits', 'stand numbers above 999 were read back cut'),
 ('W01', 'keep the integration time in virtual files', 'the integration time was lost'),
 ('W01', 'accept reference times with fractions of a second in FITS IDI and virtual files', 'a reference time with a fraction raised'),
 ('W01', 'refuse to write data sets that lack a polarization or have different baselines', 'such data sets were written with values of another baseline or polarization'),
 ('W01', 'describe polarizations that are not consecutive correctly in FITS files', 'sets like XX and YX were read back as other products'),
 ('W01', 'read measurement sets with more than two spectral windows', 'the third window could not be read'),
 ('W01', 'give the antennas of a measurement set the same IDs as those of the other formats', 'antenna IDs differed from those of the other formats'),
 ('W01', 'do not follow links when unpacking a measurement set', 'a link in a packed measurement set could write outside of the temporary directory'),
 ('W01', 'read measurement sets with only a few antennas', 'sets of one or two antennas could not be read'),
 ('I01', 'allow visibilities to be appended to a polarization', 'append raised'),
 ('I01', 'select antennas by stand number for all integrations when asked to', 'only the first integration was selected by stand number, the others by index'),
 ('I01', 'select antennas by index in data sets without an antenna array', 'selection raised without an antenna array'),
 ('F01', 'count the windows without clipping for each product of a Stokes visibility', 'visibilities were divided by the number of windows of another product'),
 ('F01', 'count the windows of both terms of Stokes U and V by the product they use', 'U and V of baselines with clipping mixed counts of two products'),
 ('F01', 'take only windows that lie within the data for all overlaps', 'with overlap, windows beyond the end of the data were used'),
 ('F01', 'correlate polarizations that have different numbers of windows', 'different delays in X and Y gave sets of different length that could not be multiplied'),
 ('F01', 'remove the same baselines from the visibilities as from the list of baselines', 'removing auto-correlations left visibilities and baselines out of step'),
 ('F01', 'correct the gains of all baselines and both polarizations of Stokes visibilities', 'gain correction used the gain of one polarization and missed baselines'),
 ('F01', 'apply the delays and gains of both polarizations to Stokes visibilities', 'the delays of X were applied to Y'),
 ('F01', 'find auto-correlations in antennas_to_baseline', 'auto-correlations were not found'),
 ('F01', 'do not let rounding put NaNs at the ends of (u,v) tracks', 'tracks ended in NaN'),
 ('F02', 'find the center of arrays that consist of outriggers only', 'the center of an array of outriggers only was NaN'),
 ('F03', 'look at all half-samples when finding the mode', 'the mode of [0, 3, 4] or [0, 3, 5, 5] was wrong and that of equal values raised'),
 ('F03', 'add the mean back to robust polynomial fits of order zero', 'a fit of order zero was offset by the mean'),
 ('F03', 'fit large data sets with few good points in robust.polyfit', 'fits of 10000 or more points raised'),
 ('F03', 'count the points along the axis that the spectral kurtosis is taken over', 'the kurtosis along any axis but the first was wrong'),
 ('F03', 'restore the numpy error levels when the limits of the kurtosis cannot be found', 'numpy raised on errors for the rest of the session'),
 ('F03', 'dedisperse all of the samples when the data that follow are given', 'up to half a block at the end stayed zero'),
 ('F03', 'report when no scattering time fits', 'a KeyError was raised instead'),
    ('A01', 'report seconds that are out of range in date.load', 'date.load with seconds out of range raised NameError'),
    ('A01', 'do not round the seconds when converting between UTC and zone dates', 'dates with seconds such as 1.9996 moved by a second when converted to or from a zone'),
    ('A01', 'keep degrees, minutes, and seconds consistent when splitting angles', 'angles such as 17 58 00 came back from degrees as 17 58 60'),
    ('A01', 'keep sums of hours, minutes, and seconds in range and store the hours', 'sums of hms kept the old hours; negative angles lost their sign and angles of 360 degrees and more raised ValueError as hms'),
    ('A01', 'find the day of the week at midnight', 'every other midnight was one weekday early'),
    ('A01', 'keep negative multiples of 24 hours in range', 'range_hours of -24 was 24'),
    ('A01', 'convert TT and not TAI to TDB', 'tt_to_tdb was 32 seconds off'),
    ('A01', 'accept dms objects for the galactic longitude', 'galactic longitudes given as dms raised TypeError'),
    ('A01', 'keep the sub-second part of times given as DP samples', 'a time given in DP samples that are not a whole second was off by up to years'),
    ('A01', 'carry milliseconds past midnight that round up into the next MJD', 'utc_mcs half a millisecond before midnight was 86400000 ms'),
    ('A02', 'build the positions for separations and position angles', 'separations and position angles of plain positions raised ValueError'),
    ('A02', 'allow positions that come from bare frames to be converted further', 'equatorial positions that came from horizontal or ecliptic ones could not be converted back'),
    ('A02', 'apply the proper motion when finding apparent positions', 'proper motions were ignored by apparent positions'),
    ('A02', 'find when objects rise, transit, and set for all declinations and latitudes', 'objects that transit north of the zenith for southern observers, or south of -(latitude), had no rise and set; never rising ones raised IndexError; the Moon often had none'),
    ('M06', 'refuse NaNs where the parser asks for positive floats', 'nan was accepted as a positive number'),
    ('M06', 'report empty hours and degrees as argument errors', 'an empty string was an hour or degree of zero'),
    ('M06', 'report MJDs that are too large as argument errors', 'very large MJDs raised OverflowError'),
    ('M06', 'keep leading zeros and digits inside of host names when expanding ranges', 'adp01~03 became adp1, adp2, adp3 and names with digits inside were refused'),
    ('M06', 'refuse IPv4 addresses with bytes above 255', 'addresses such as 10.1.1.256 were accepted'),
    ('S07', 'replace or remove the default console handler of the logger', 'messages came twice when a console was enabled and still came when it was disabled'),
    ('S07', 'match log filters against the LSL module that logs', 'filters by LSL module suppressed everything'),
    ('S07', 'obey the log level when warnings are captured', 'captured warnings ignored the level of the logger'),
    ('S07', 'keep logging to the old file if the new one cannot be opened', 'a log file that could not be opened closed the one in use'),
    ('S07', 'stay silent when console logging is disabled and there is no other handler', 'messages still went to stderr when the console was disabled'),
    ('W02', 'name the LR polarization of SDFITS files', 'polarization -4 was named RL'),
    ('W02', 'sort SDFITS spectra by time and then polarization for short integrations', 'spectra less than 0.07 s apart were mixed'),
    ('W02', 'do not mix SDFITS spectra when a polarization is missing', 'a missing polarization was filled from another time'),
    ('W02', 'label the polarizations of SDFITS files that are not adjacent', 'I and V were labelled I and Q'),
    ('W02', 'carry VDIF frame numbers that round up into the next second', 'times that rounded up to a second gave a frame number that does not exist'),
    ('W02', 'do not write DRX frames with time offsets that do not fit', 'time offsets were truncated to 16 bits'),
    ('W02', 'do not write DRX frames of invalid beams as those of other beams', 'beam 9 was written as beam 1'),
    ('S08', 'lsl.catalog can be imported on its own', 'import lsl.catalog failed in a fresh interpreter'),
    ('S08', 'lsl.reader.buffer exports the frame buffers it has', 'from lsl.reader.buffer import * failed'),
    ('S08', 'lsl.misc.rfutils exports dBi_to_dBd', 'dBi_to_dBd was left out of the public names'),
    ('A03', 'PSR catalog debug messages are formatted and a malformed RAJ is skipped', 'a malformed RAJ was replaced by that of the previous pulsar'),
    ('A03', 'PKS catalog keeps both components of a source and plain alias names', 'the a components of four PKS sources were lost and 3C133 not found'),
    ('A03', 'PKS90 catalog reads its positions to the precision they are listed with', 'the right ascensions of 791 sources were cut to 0.1 s'),
    ('M07', 'parse_header understands sections after values, empty sections, free-form lines and comment characters in values', 'a section after a value was lost, a line after a number raised TypeError, # was removed from values'),
    ('M07', 'header timestamps have the precision asked for', 'timespec was ignored'),
    ('I02', 'scale every gridded image by its own size, not that of the first one', 'every image of another size than the first one of the process had the wrong scale'),
    ('I02', 'grid visibilities that all lie in one w plane', 'visibilities that all have the same w gave an image of zeros'),
    ('I02', 'allow for any number of w planes when gridding', 'more than 1024 w planes overran an array'),
    ('I02', 'do not grid visibilities outside of the uv plane into other memory', 'baselines longer than the uv plane were added to memory outside of the image'),
    ('I02', 'use the nearest sample of the gridding kernel so that fluxes are not 3% too large', 'fluxes were 3% too large'),
    ('I02', 'weighting an image does not change the gridded data', 'image(weighting="uniform") changed the gridded data for all later images'),
    ('I02', 'apply the u and v tapers to u and v', 'the u taper was applied to v, and the other way around'),
    ('I02', 'image all integrations of a VisibilityData, not the last one only', 'only the last integration was imaged'),
    ('I02', 'WCS of images with an astro.equ_posn phase center', 'AttributeError for a phase center given as an astro.equ_posn'),
    ('I02', 'image a single visibility', 'a single visibility could not be imaged'),
    ('I02', 'leave masked visibilities out of images', 'masked visibilities were imaged'),
    ('I02', 'unshifted coordinates of images with an odd number of pixels', 'get_image_radec(shifted=False) was off by one pixel for odd sizes'),
    ('I03', 'simulated polarizations with a flat response do not share their data', 'with flat_response=True a change to one polarization changed all of them'),
    ('I03', 'add noise to data that do not use all of the antennas', 'IndexError, or the SEFDs of other antennas, for data of a subset of antennas'),
    ('I03', 'shift the coordinates of each integration at its own time', 'all integrations got the coordinates of the last time'),
    ('I03', 'refuse to simulate channels and baselines that the array does not have', 'channels and antennas outside of the array were read from and written to other memory'),
    ('I04', 'self-calibration keeps the gains when it solves for phases and delays', 'gains were dropped from the data and multiplied up at each iteration'),
    ('I04', 'self-calibration has converged when gains, phases and delays all have', 'converged was reported with the phases still off'),
    ('I04', 'self-calibration with auto-correlations', 'auto-correlations entered the equations as if they were cross-correlations with the reference'),
    ('I04', 'centers of point sources are offset along their own axes', 'sub-pixel offsets in x and y were swapped'),
    ('I04', 'background of images that are constant in places, and along their edges', 'constant tiles gave NaNs (and a crash), edges and corners a background of zero'),
]
OPEN = [
]
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, check=True).stdout.decode().splitlines()
out = []
for pid, subj, what in FIXED:
    h = [l.split(' ', 1)[0] for l in log if l.split(' ', 1)[1] == 'fix: ' + subj]
    assert len(h) == 1, (subj, h)
    out.append({'property': pid, 'status': 'fixed', 'commit': h[0], 'what': 'fixed: property=%s %s %s' % (pid, h[0], what)})
for pid, key, what in OPEN:
    out.append({'property': pid, 'status': 'open', 'key': key, 'what': what})
with open(os.path.join(here, 'known_findings.json'), 'w') as fh:
    json.dump({'findings': out}, fh, indent=1)
    fh.write('\n')
missing = [l for l in log if ' fix: ' in ' '+l and l.split(' ', 1)[0] not in [o.get('commit') for o in out]]
for m in missing:
    print('not listed:', m)
