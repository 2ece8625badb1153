#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    P.append(d)


prop('P01', 'Bit-field reads and writes are exact at any position and width',
     'Reading an unsigned or signed field of up to 32 (or 64) bits from a big-endian byte buffer returns exactly the '
     'addressed bits, two\'s-complement sign extended for the signed readers, and touches no byte outside those the field covers. '
     'Writing a field makes a later read return the written value and leaves every other bit of the buffer unchanged. '
     'Copying a bit range moves exactly that range and shifting a buffer left by any number of bits equals the arithmetic shift with zero fill.',
     ['inputs'], 'every buffer content, bit position, field width and value',
     'The tests read a few literal buffers at a few offsets; alignment x width x content cannot be sampled.',
     ['src/bits.c', 'include/swiftnav/bits.h'],
     [('field readers/writers, bit copy, bit shift', 'src/bits.c')])

prop('P02', 'Parity, bit counting, sign extension and byte-order helpers are exact',
     'Parity is the XOR of all 32 bits, the bit counters return the number of bits equal to the requested value, and sign extension '
     'yields the two\'s-complement value of the low bits. '
     'Byte swapping and host/big/little-endian conversion are involutions that reorder the octets exactly, and interleaving two bytes puts the bits of the '
     'first in the even and of the second in the odd positions.',
     ['inputs'], 'every 8/16/32/64-bit operand and every field width',
     'Tests compare a handful of constants; most helpers have no test.',
     ['src/bits.c', 'include/swiftnav/bits.h'],
     [('bit helpers', 'src/bits.c')])

prop('P03', 'CRC-24Q equals its generator polynomial and composes over splits',
     'The 24-bit CRC of any byte string and any initial value equals long division by the CRC-24Q polynomial 0x1864CFB, never exceeds 24 bits, and the CRC of a '
     'concatenation equals continuing from the CRC of the first part. '
     'The bit-length variant equals the CRC of the message right-aligned by zero padding in front (complemented bits when inversion is asked for), and neither variant '
     'reads outside the bytes that contain the message.',
     ['inputs'], 'every byte, every CRC state, every message up to the bound, every split and bit length',
     'The tests check a few literal messages; a wrong table entry or a wrong alignment shows only on particular bytes.',
     ['src/edc.c', 'include/swiftnav/edc.h'],
     [('CRC table and byte step', 'src/edc.c'), ('bit aligned CRC', 'src/edc.c')])

prop('P04', 'The byte FIFO returns exactly the bytes written, in order',
     'After any sequence of writes, reads, peeks and removes, a byte FIFO behaves as a bounded queue: a write accepts the longest prefix that fits, a read or peek '
     'returns the oldest bytes in order, a remove drops them, and length plus free space is constant. '
     'This holds from every internal position, including wrap-around of the positions, and no access leaves the storage.',
     ['histories', 'inputs'], 'every reachable FIFO state and every operation with every length and content; every storage size up to the bound',
     'The FIFO has no test at all, and wrap-around of the positions needs 2^32 bytes of traffic to reach by running.',
     ['src/fifo_byte.c', 'include/swiftnav/fifo_byte.h'],
     [('read/write index arithmetic', 'src/fifo_byte.c')])

prop('P05', 'The byte FIFO is safe for one producer and one consumer in parallel',
     'With one thread only writing and one thread only reading, under every interleaving of their memory accesses the consumer obtains exactly the bytes the '
     'producer wrote, in order, without loss, duplication or tearing. A published byte is never overwritten before it is consumed.',
     ['schedules'], 'every interleaving of one producer\'s and one consumer\'s memory accesses over the bounded number of operations',
     'No test runs the FIFO, and a schedule cannot be forced by a unit test.',
     ['src/fifo_byte.c', 'include/swiftnav/fifo_byte.h'],
     [('index published after the data copy', 'src/fifo_byte.c')])

prop('P06', 'Bit and byte streams never read past their buffer and decode in order',
     'A stream read, write or decode that would pass the end of the buffer is refused whatever its position and length, and then changes neither the position nor its output; '
     'otherwise it transfers exactly the addressed bits or bytes with the selected byte order and sign, and a decode advances by exactly its size. '
     'Remaining length is buffer length minus consumed length, and zero once more than the buffer was consumed.',
     ['histories', 'inputs'], 'every buffer content and length up to the bound, every position and every requested length, every operation sequence',
     'Tests use well-formed buffers; the refusal path and huge lengths or offsets are not sampled.',
     ['include/swiftnav/bitstream.h', 'include/swiftnav/bytestream.h'],
     [('overflow predicate and position update', 'include/swiftnav/bitstream.h, include/swiftnav/bytestream.h')])

prop('P07', 'Sorted-array set operations implement mathematical sets',
     'On sorted duplicate-free arrays with any consistent ordering, membership testing, insertion, removal and intersection give the mathematical result, keep the array sorted and '
     'duplicate-free, report its exact size, and invoke the per-pair callback exactly once per common element. '
     'Insertion and removal touch only the array they are given.',
     ['inputs'], 'every pair of arrays up to the bounded length and every element',
     'The tests use a few literal integer arrays.',
     ['src/set.c', 'include/swiftnav/set.h'],
     [('merge-walk over sorted arrays', 'src/set.c')])

prop('P08', 'A signal set contains exactly the signals added and not removed',
     'After any sequence of additions and removals of valid signals, containment is exact, the signal count is the number of distinct contained signals and the '
     'satellite count is the number of distinct (constellation, satellite) pairs contained. Adding twice or removing an absent signal changes nothing.',
     ['histories', 'inputs'], 'every set content reachable, every operation and every valid signal',
     'A test adds a few signals; collisions between codes, constellations and high satellite numbers are not covered.',
     ['src/sid_set.c', 'include/swiftnav/sid_set.h'],
     [('per-code satellite bit masks', 'src/sid_set.c')])

prop('P09', 'Signal numbering is a bijection and validity is exact',
     'Every valid signal identifier maps to a unique per-code index and back; the satellite range accepted for each code is exactly the range '
     'published for its constellation (including the explicit SBAS list), and everything else is rejected. '
     'Code-to-constellation classification is the one implied by the code name and every signal maps to a satellite number within range.',
     ['inputs'], 'every code value and every satellite number',
     'The tests loop over ranges computed from the same tables they test.',
     ['src/signal.c', 'include/swiftnav/signal.h'],
     [('code table', 'src/signal.c')])

prop('P10', 'Signal ordering, equality, hashing and text forms are consistent',
     'Signal comparison is a strict total order whose equality is field equality, distinct signals never share a hash, and constellation predicates agree with classification. '
     'Text names of codes and constellations are unique and parse back to the value they came from, unknown text parses to invalid, and '
     'formatting a signal never writes outside the given buffer and is always terminated within it.',
     ['inputs'], 'every pair/triple of signals, every code, every buffer size, every short string',
     'The tests spot-check a few names and comparisons.',
     ['src/signal.c', 'include/swiftnav/signal.h'],
     [('comparison, hash and string functions', 'include/swiftnav/signal.h, src/signal.c')])

prop('P11', 'Carrier frequency and wavelength match the published signal plan',
     'For every valid signal the carrier frequency is the published one for its band, GLONASS FDMA frequencies are base plus channel times step for every slot and channel assignment in force, '
     'and wavelength times frequency equals the speed of light. Chip rate and code length data are the published ones for every supported code.',
     ['inputs', 'configurations'], 'every code, satellite and GLONASS channel assignment',
     'The tests check some codes with one assignment.',
     ['src/signal.c', 'src/glo_map.c', 'include/swiftnav/constants.h'],
     [('carrier tables', 'src/signal.c')])

prop('P12', 'The GLONASS slot-to-channel map reflects the last assignment made',
     'After any sequence of assign, clear and clear-all operations, looking up a slot returns the last channel assigned to it and not cleared, the validity query says whether one is present, '
     'and the reverse lookup returns exactly the slots carrying the channel, including the pair of antipodal slots. '
     'Every operation releases the map lock it takes, on every path.',
     ['histories', 'inputs'], 'every operation history within the bound and every slot/channel value',
     'The tests assign a few slots in one order.',
     ['src/glo_map.c', 'include/swiftnav/glo_map.h'],
     [('slot table and lock callbacks', 'src/glo_map.c')])

prop('P13', 'Bounded copy and string helpers never overrun and report every misuse',
     'The checked copy copies exactly when the source is non-null, fits and does not overlap; in every refused case it returns a non-zero status and, if a destination of legal size is given, leaves it all zero, never '
     'touching a byte outside. The bounded string length reads at most the given number of bytes and returns the exact length, and path truncation returns the last path component.',
     ['inputs'], 'every size pair, every relative placement of the buffers, every content up to the bound',
     'No tests exist for these helpers.',
     ['src/memcpy_s.c', 'include/swiftnav/memcpy_s.h', 'include/swiftnav/swift_strnlen.h', 'src/logging_common.c'],
     [('argument checks before copying', 'src/memcpy_s.c')])

prop('P14', 'GPS signal-health words are interpreted as the interface document says',
     'For every 5/6/8-bit health word, every NAV-data-health indication and every GPS signal code, the signal is reported usable exactly when IS-GPS-200 says the component carrying it is usable.',
     ['inputs'], 'every health word, every ignore mask and every code',
     'The tests exercise a few words; the 6-bit and 8-bit tables are barely covered.',
     ['src/shm.c', 'include/swiftnav/shm.h'],
     [('health code tables', 'src/shm.c')])

prop('P15', 'Subsystem status reports reach every registered receiver in order',
     'After any sequence of registrations, re-registrations and de-registrations, sending a report invokes each currently registered receiver exactly once with the data sent, in registration order, and nobody else. '
     'Queries and sends with no receiver are harmless and the list never becomes cyclic.',
     ['histories'], 'every operation history within the bound over distinct receivers',
     'The tests register a couple of receivers in one fixed history.',
     ['src/subsystem_status_report.c', 'include/swiftnav/subsystem_status_report.h'],
     [('singly linked receiver list', 'src/subsystem_status_report.c')])

prop('P16', 'GPS time arithmetic stays normalised and exact',
     'Normalising any time within range yields a time of week in [0, 604800) denoting the same instant; adding a duration and differencing are inverse operations across week boundaries; '
     'differences are antisymmetric and, when one week number is unknown, are resolved to within half a week. '
     'Rounding to epoch returns the nearest multiple of the epoch and flooring the greatest not after, always normalised.',
     ['inputs'], 'every week number and every time of week representable on the stated dyadic grid, every duration within the stated range',
     'Tests sample a few instants away from rounding boundaries.',
     ['src/gnss_time.c', 'include/swiftnav/gnss_time.h'],
     [('normalisation and week-difference arithmetic', 'src/gnss_time.c')])

prop('P17', 'Truncated week numbers resolve to the nearest admissible full week',
     'A 10-bit or 8-bit broadcast week number together with a reference week resolves to the unique week congruent to it within one cycle at or after the reference; matching the week of a '
     'time of week to a reference instant puts the result within half a week of that instant.',
     ['inputs'], 'every truncated week, every reference week and every time of week',
     'Tests sample a few weeks around one rollover.',
     ['src/gnss_time.c'],
     [('week cycle adjustment', 'src/gnss_time.c')])

prop('P18', 'Calendar conversions are exact for every date',
     'Conversion between calendar date and modified Julian date, and between GPS time, MJD and broken-down UTC, agree with the proleptic Gregorian calendar, are mutually inverse, and always give in-range fields '
     '(month 1-12, day within that month, correct weekday and day of year). Leap-year and month-length queries match the Gregorian rule.',
     ['inputs'], 'every day and every second of the supported era, seconds as exact reals',
     'Tests check a few dates; leap-century and year-boundary behaviour needs every day.',
     ['src/gnss_time.c'],
     [('calendar arithmetic', 'src/gnss_time.c')])

prop('P19', 'UTC conversion applies the right leap-second count at every instant',
     'Without decoded parameters the GPS-UTC offset is the published leap-second history at every instant, monotone, and increases by exactly one at each leap second; '
     'with decoded parameters it follows the broadcast polynomial and switches at the announced instant. '
     'Converting GPS to UTC and back returns the same instant, a leap-second event is reported only during an inserted second, and broken-down UTC fields are always in range.',
     ['inputs', 'histories'], 'every instant on the stated grid and every leap-second announcement',
     'Tests probe a few instants around some leap seconds.',
     ['src/gnss_time.c', 'include/swiftnav/leap_seconds.h'],
     [('leap-second table walk', 'src/gnss_time.c')])

prop('P20', 'GLONASS time and GPS time convert consistently',
     'Converting a GLONASS time (four-year period, day, hour, minute, second) to GPS time denotes the same instant (UTC+3h plus leap seconds) and converting any GPS time from 1996 to 2099 to GLONASS time yields in-range fields that convert back to the same instant. '
     'Out-of-range GLONASS fields give the unknown time.',
     ['inputs'], 'every GLONASS time from 1996 to 2099, seconds as exact reals',
     'Tests sample a few dates.',
     ['src/gnss_time.c'],
     [('GLONASS epoch arithmetic', 'src/gnss_time.c')])

prop('P21', 'UTC, ionosphere and almanac-week broadcast pages decode exactly',
     'For every word content of the GPS subframe pages carrying UTC and Klobuchar parameters (and BeiDou ionosphere words), decoding succeeds exactly for the designated page and then each parameter equals its '
     'interface-document bit field times its scale factor, with sign, and reference times are consistent; other pages are refused and nothing is reported valid.',
     ['inputs'], 'every value of every word',
     'Tests decode one or two recorded pages.',
     ['src/gnss_time.c', 'src/ionosphere.c', 'src/almanac.c'],
     [('page decoders', 'src/gnss_time.c, src/ionosphere.c')])

prop('P22', 'GPS LNAV ephemeris decoding is exact for every message content',
     'For every content of the three ephemeris subframes, decoding terminates normally and each decoded parameter equals its IS-GPS-200 bit field times its scale factor with sign, with fit interval, URA, health, IOD and reference times derived as '
     'specified. An ephemeris with inconsistent issue-of-data or out-of-range reference times (t_oe or t_oc) is never marked valid.',
     ['inputs'], 'every bit pattern of the 24 data words and every current time of week on the grid',
     'Tests decode a few recorded frames.',
     ['src/ephemeris.c', 'include/swiftnav/ephemeris.h'],
     [('LNAV decoder', 'src/ephemeris.c')])

prop('P23', 'BeiDou D1 ephemeris decoding is exact for every message content',
     'For every content of the three BeiDou D1 subframes, decoding terminates normally and each decoded parameter equals its interface-document bit field times its scale factor with sign, including '
     'fields split across words, the TGD pair, health, accuracy and the conversion of the BeiDou week number to GPS weeks.',
     ['inputs'], 'every bit pattern of the words',
     'Tests decode one recorded set of subframes.',
     ['src/ephemeris.c'],
     [('D1 decoder', 'src/ephemeris.c')])

prop('P24', 'Galileo I/NAV ephemeris decoding is exact for every message content',
     'For every content of the Galileo I/NAV words 1-5, decoding terminates normally and each decoded parameter equals its interface-document bit field times its scale factor with sign, including group delays, '
     'accuracy index, health and the week matched to the transmission time; reference times outside the week are refused.',
     ['inputs'], 'every bit pattern of the pages',
     'Tests decode a few recorded pages.',
     ['src/ephemeris.c'],
     [('I/NAV decoder', 'src/ephemeris.c')])

prop('P25', 'GLONASS string decoding is exact and refuses out-of-range content',
     'For every content of GLONASS strings 1-5 each decoded parameter equals its interface-document field (sign-magnitude where specified) times its scale factor, fields outside their published range make the decoder report failure, '
     'and a set of five strings yields a valid ephemeris exactly when all are good, whatever the record held before. Decoding terminates normally for every string content.',
     ['inputs'], 'every content of every string, every outcome of the string checks',
     'Tests decode a couple of recorded frames.',
     ['src/decode_glo.c', 'include/swiftnav/decode_glo.h'],
     [('string decoder', 'src/decode_glo.c')])

prop('P26', 'GLONASS error detection accepts, locates and rejects as coded',
     'For every 85-bit GLONASS string the check reports no error for every code word, the exact position of the flipped bit for every code word with one data bit flipped, and uncorrectable for every code word with two flipped bits. '
     'Field extraction returns exactly the addressed bits of the string.',
     ['inputs'], 'every code word, every single and every double bit error',
     'Tests check a few strings with a few errors out of 2^76 x 85^2.',
     ['src/decode_glo.c'],
     [('Hamming check bits', 'src/decode_glo.c')])

prop('P27', 'An ephemeris or almanac is used only while valid, healthy and in its window',
     'For every ephemeris content and time, the reported status is the first that applies of missing, invalid, zero week, zero fit interval, invalid signal, unhealthy, bad issue of data, too old, and validity is granted exactly when none applies; '
     'the window, which must also hold the clock reference time, is half a fit interval around the reference time (GPS, QZSS, GLONASS) or one fit interval from it (BeiDou, Galileo). '
     'Almanac validity follows the symmetric rule with its own health word.',
     ['inputs'], 'every ephemeris header field value, every time on the grid, every constellation',
     'Tests sample a few ages.',
     ['src/ephemeris.c', 'src/almanac.c'],
     [('status and validity predicates', 'src/ephemeris.c')])

prop('P28', 'Ephemeris, almanac and measurement equality is a faithful equivalence',
     'Equality of two ephemerides (and of almanacs, measurements and bias sets) is reflexive and symmetric, is true when all fields are equal and false as soon as any compared header field (accuracy, fit interval and source of an ephemeris are ignored by design) or '
     'orbit/clock parameter of the signal\'s own constellation differs beyond tolerance.',
     ['inputs'], 'every pair of records for every constellation, every field',
     'Tests change a few fields one at a time for one constellation.',
     ['src/ephemeris.c', 'src/almanac.c', 'src/nav_meas.c', 'src/glonass_phase_biases.c'],
     [('field-wise comparison', 'src/ephemeris.c')])

prop('P29', 'Accuracy and fit-interval tables are exact and mutually inverse',
     'URA index to metres and back is the identity on every index and the encoding returns the smallest index whose accuracy covers the value; Galileo SISA decoding follows its piecewise-linear definition, and the fit interval follows the '
     'published function of flag and issue of data. Out-of-range indices and negative accuracies yield the documented invalid value and never read outside the table.',
     ['inputs'], 'every index, every accuracy value, every flag and issue number',
     'Tests check the listed values and a few in between.',
     ['src/ephemeris.c'],
     [('URA/SISA/fit-interval tables', 'src/ephemeris.c')])

prop('P30', 'Satellite clock, group delay and SBAS state follow their polynomials',
     'For every ephemeris, the satellite clock error and rate are the broadcast polynomial (plus the group delay of the requested signal where specified) at the time since clock reference, and the SBAS position, velocity and acceleration are the '
     'quadratic, its derivative and its second derivative at the time since reference. Velocity is the derivative of position and the result does not depend on the week in which it is asked other than through elapsed time.',
     ['inputs'], 'every coefficient and every elapsed time within validity (exact real arithmetic)',
     'Tests compare a few epochs with recorded numbers.',
     ['src/ephemeris.c'],
     [('clock and XYZ state evaluation', 'src/ephemeris.c')])

prop('P31', 'GPS almanac pages decode exactly',
     'For every content of the GPS almanac, almanac-week and health pages, decoding succeeds exactly for the designated page identifiers and then every parameter equals its IS-GPS-200 bit field times its scale, '
     'each satellite\'s health bits land in that satellite\'s slot with the right validity mask, and other pages are refused leaving an all-zero record.',
     ['inputs'], 'every bit pattern of the eight words',
     'Tests decode a few recorded pages.',
     ['src/almanac.c', 'include/swiftnav/almanac.h'],
     [('almanac page decoders', 'src/almanac.c')])

prop('P32', 'Klobuchar ionospheric delay follows its published formula',
     'For every coefficient set, position, direction and time of day, the delay equals the published single-frequency algorithm: pierce-point clamps, non-negative amplitude, period at least 72000 s, the cubic-cosine day side and the constant '
     '5 ns night side, and it is never below the night-side slant delay.',
     ['inputs'], 'every coefficient, angle and time (exact real arithmetic, trigonometric values abstract)',
     'Tests compare a few points.',
     ['src/ionosphere.c'],
     [('Klobuchar evaluation', 'src/ionosphere.c')])

prop('P33', 'Matrix and vector kernels compute their algebraic definition',
     'For every operand, products (floating and integer), transposes, submatrices, scaled sums, diagonal scaling, dot and cross products and norms equal their algebraic definition, write only their output, and are unaffected by its previous contents. '
     'A matrix inverse that reports success multiplied by its operand is the identity, and a singular matrix is reported.',
     ['inputs'], 'every entry value at every dimension up to the bound (exact real arithmetic)',
     'Tests use random matrices with tolerances at a few sizes.',
     ['src/linear_algebra.c', 'include/swiftnav/linear_algebra.h'],
     [('dense kernels', 'src/linear_algebra.c')])

prop('P34', 'Least-squares, QR and UDU solvers satisfy their defining equations',
     'When weighted least squares or a pseudo-inverse reports success its result satisfies the normal equations and its covariance is the inverse normal matrix; a successful square solve satisfies the system; '
     'QR factors multiply back to the operand and UDU factors reconstruct it with unit triangular U.',
     ['inputs'], 'every entry value at every dimension up to the bound (exact real arithmetic)',
     'Tests use random matrices with tolerances; the rectangular inverse is not tested.',
     ['src/linear_algebra.c'],
     [('solvers', 'src/linear_algebra.c')])

prop('P35', 'Coordinate frames are consistent, orthonormal and correctly oriented',
     'The ECEF-to-NED rotation is orthonormal with right-handed north/east/down axes at every latitude and longitude, rotating to NED and back is the identity, and geodetic to ECEF gives the point at the stated height along the ellipsoid normal. '
     'Azimuth lies in [0, 2pi], elevation has the sign of the upward component, and degree/radian conversion round-trips leaving height untouched.',
     ['inputs'], 'every position and vector (exact real arithmetic, trigonometric values constrained by s^2+c^2=1)',
     'Tests use a table of points and random points with tolerances.',
     ['src/coord_system.c'],
     [('rotation matrix and conversions', 'src/coord_system.c')])

prop('P36', 'A position solution is released only when every release gate passed',
     'Whatever the numerical kernels return, a solution is flagged valid exactly when the return code is non-negative, and then geometry, altitude and export-velocity limits are met; any negative code leaves the solution invalid. '
     'Only measurements passing the strategy and signal-strength masks are used, satellite and signal counts count exactly the measurements used, removed signals are a subset of the used ones and are reported exactly when repair happened, and velocity is flagged valid only when it was requested and solved.',
     ['inputs', 'fault_sequences'], 'every measurement set up to the bound, every strategy/mask option, every outcome of the numerical kernels',
     'Tests run a few recorded epochs.',
     ['src/single_epoch_solver.c'],
     [('release gates and RAIM bookkeeping', 'src/single_epoch_solver.c')])

prop('P37', 'Measurement flags, lock-time coding and clock corrections are exact',
     'Pseudorange validity depends only on the code-valid and exclusion flags; lock-time coding is monotone, never overstates the lock time, and decoding then encoding any code is the identity; '
     'measurement ordering follows signal ordering, and satellite clock corrections add exactly the clock term scaled by the speed of light or carrier frequency.',
     ['inputs'], 'every flag word, lock time and code',
     'Tests check a few lock times.',
     ['src/nav_meas.c', 'include/swiftnav/nav_meas.h'],
     [('flag predicates, lock-time codec', 'src/nav_meas.c')])

prop('P38', 'Geoid lookup stays inside its grid and reproduces it at the nodes',
     'For every latitude and longitude input, including poles, the antimeridian, out-of-range and non-numeric values, the lookup reads only inside the grid and returns a finite height; out-of-range input returns zero. '
     'Between the nodes it is the bicubic interpolation of the surrounding grid values, wrapping in longitude (bilinear in the cells next to the poles), so at a node it is the grid value.',
     ['inputs'], 'every pair of double-precision angles',
     'Tests sample a coarse list of points away from the seams.',
     ['src/geoid_model.c'],
     [('grid indexing', 'src/geoid_model.c')])

prop('P39', 'Tropospheric delay follows the UNB3m model and its domain limits',
     'The tropospheric delay is zero above the troposphere and otherwise the UNB3m model value: zenith hydrostatic and wet delays from table values for the season, mapped by the elevation. Negative heights count as zero height and elevations below the minimum as the minimum; '
     'the tables are interpolated linearly in absolute latitude, are constant outside them, and the season is shifted by half a year in the southern hemisphere.',
     ['inputs'], 'every latitude, height, elevation and day of year (exact real arithmetic, transcendental values abstract)',
     'Tests compare a few points.',
     ['src/troposphere.c'],
     [('table interpolation and clamps', 'src/troposphere.c')])

prop('P40', 'GLONASS phase-bias selection follows the broadcast mask',
     'For every bias message and signal the correction is the reference bias minus the broadcast bias of the same band, preferring the open signal, falling back to the precise signal when only that is flagged, and zero otherwise.',
     ['inputs'], 'every mask, every bias value and every code',
     'There are no tests for it.',
     ['src/glonass_phase_biases.c', 'include/swiftnav/glonass_phase_biases.h'],
     [('mask tests', 'src/glonass_phase_biases.c')])

prop('P41', 'Log messages go to the installed handler and only to it',
     'After installing a pair of log handlers every log call at every level reaches exactly the corresponding handler once with its level and message; installing nothing restores the default.',
     ['histories', 'inputs'], 'every level and every installation history within the bound',
     'The tests do not observe log routing.',
     ['src/logging.c', 'include/swiftnav/logging.h'],
     [('handler pointers', 'src/logging.c')])

prop('P42', 'Keplerian and GLONASS orbit propagation is physically accurate',
     'For every valid ephemeris and time within its validity, the propagated satellite position is within the published error of the orbit the parameters describe, and velocity is its time derivative.',
     ['inputs'], 'every orbital element set and time',
     'Tests compare a few epochs.',
     ['src/ephemeris.c'],
     [('Kepler iteration and Runge-Kutta integration', 'src/ephemeris.c')])

prop('P43', 'The single-epoch solution converges to the true position',
     'For every consistent set of measurements with adequate geometry, the solver converges and the position error is bounded by the measurement error times the dilution of precision.',
     ['inputs'], 'every geometry and measurement set',
     'Tests run recorded epochs.',
     ['src/single_epoch_solver.c'],
     [('Newton iteration', 'src/single_epoch_solver.c')])


def main():
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')


if __name__ == '__main__':
    main()
