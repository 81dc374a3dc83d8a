#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
T = 'crates/tofas/src/'
X = 'crates/tofas_extras/src/'

prop('C01', 'Date construction accepts exactly the valid proleptic Gregorian dates',
 'GregorianDate::new succeeds for a year, month and day if and only if the year is at least -4799, the month is 1 to 12 and the day exists in that month under the Gregorian leap-year rule, and then stores the three numbers unchanged. Otherwise it fails with BadYear, BadMonth or BadDay, checked in that order.',
 ['inputs'], 'every 32-bit year, month and day',
 'The tests only construct a handful of valid dates and never an invalid one; the leap rule depends on the year modulo 400 and the domain is 2^96 triples.',
 [T+'calendar.rs'], [('GregorianDate::new', T+'calendar.rs'), ('MTAB month lengths', T+'calendar.rs')],
 [('YEAR_MIN', 'first supported year', T+'calendar.rs')], ['GregorianDate::new'])

prop('C02', 'Date to Julian date is the exact proleptic Gregorian day count',
 'For every date GregorianDate::new accepts, to_julian returns (2400000.5, MJD) where MJD is the exact integer number of days from 1858-11-17 in the proleptic Gregorian calendar, so consecutive dates differ by exactly one. GregorianDateHMS::to_julian adds the time of day as a fraction of 86400 s to the second part only. No valid date makes the computation overflow or panic.',
 ['inputs'], 'every accepted date, whatever its year',
 'The random calendar test stops at 1871 and only checks the round trip, so a compensating error in both directions, a modern-era error or an overflow for large years goes unseen.',
 [T+'calendar.rs'], [('GregorianDate::to_julian', T+'calendar.rs'), ('GregorianDateHMS::to_julian', T+'calendar.rs')], None,
 ['GregorianDate::to_julian', 'GregorianDateHMS::to_julian'])

prop('C03', 'Julian date to date inverts the day count and always yields a valid date',
 'For every two-part Julian date whose sum lies within [-32000, 1e9], from_julian returns the calendar date of the day that contains the instant together with the fraction of that day, in [0,1), up to the floating-point resolution of the two parts; this inverts to_julian however the date is split into two parts, in either order. Sums outside that range, and NaN, are rejected with BadJulian, and no pair of floating-point numbers makes it panic or overflow.',
 ['inputs'], 'every pair of f64 parts; every day of the supported range; every fraction of day',
 'The random test samples days before 1871 with the date part first and a non-negative fraction; it never swaps the parts, uses a negative second part, approaches the upper bound or passes NaN.',
 [T+'calendar.rs'], [('GregorianDate::from_julian', T+'calendar.rs'), ('GregorianDateHMS::from_julian', T+'calendar.rs')],
 [('DJ_MIN, DJ_MAX', 'supported Julian date range', T+'calendar.rs')], ['GregorianDate::from_julian', 'GregorianDateHMS::from_julian'])

prop('C04', 'Fraction of day and hours/minutes/seconds agree',
 'HMS::from_fraction_of_day maps every fraction f in [0,1] to an hour, minute and second denoting exactly 86400 f seconds, with the minute below 60, the second in [0,60] and, when f < 1, the hour below 24; any other f, including NaN, is rejected with BadFract. HMS::to_fraction_of_day returns (3600 h + 60 m + s)/86400 for every field value, so the two are inverse to each other.',
 ['inputs'], 'every f64 fraction and every (hour, minute, second)',
 'test_hms draws 1000 uniform fractions, so it never hits the ends, an out-of-range value, NaN, or the neighbourhood of a minute or hour boundary.',
 [T+'calendar.rs'], [('HMS::from_fraction_of_day', T+'calendar.rs'), ('HMS::to_fraction_of_day', T+'calendar.rs')], None,
 ['HMS::from_fraction_of_day', 'HMS::to_fraction_of_day'])

prop('C05', 'TAI-UTC is the published value in force on the date',
 'For every date from 1960 on, delta_at returns the published TAI-UTC in force on that date: the leap-second value that took effect on or before the first of that month, and before 1972 also the linear drift (MJD + fraction - reference epoch) * rate of that period. Dates before 1960 give None, and a fraction of day outside [0,1] or NaN gives BadFract.',
 ['inputs'], 'every date (any year and month, hence both sides of all 42 table boundaries) and every fraction of day',
 'test_delta_at looks up one date. The table has 42 entries with two regimes and its boundaries are where such code goes wrong.',
 [T+'delta_at.rs'], [('delta_at', T+'delta_at.rs'), ('DAT_DATA', T+'delta_at.rs')], None, ['DeltaAt::delta_at'])

prop('C06', 'Time-scale conversions apply exactly the defined offset',
 'UTC to TAI adds the given TAI-UTC, TAI to TT adds 32.184 s, TT to TDB adds the given TDB-TT, TT to UT1 subtracts and UT1 to TT adds the given TT-UT1, in seconds of 1/86400 day, for every two-part date and every offset. The offset goes entirely into the smaller of the two parts and the other part is returned unchanged, and total() is the sum of the two parts; hence TT to UT1 to TT preserves the instant.',
 ['inputs'], 'every two-part date in either order of its parts, and every offset',
 'The only test of the conversions uses offsets of zero, with the large part first; UTC, TAI and UT1 to TT are not tested at all.',
 [T+'time.rs'], [('TT::from_ut1', T+'time.rs'), ('TAI::from_utc_delta_at', T+'time.rs'), ('From<TAI> for TT', T+'time.rs'), ('TDB::from_tt', T+'time.rs'), ('UT1::from_tt', T+'time.rs')], None,
 ['TT', 'TAI', 'UTC', 'UT1', 'TDB'])

prop('C07', 'Time scales are distinct types that never mix implicitly',
 'UT1, TT, TAI, UTC and TDB are five different types: no trait conversion, operator, comparison or dereference exists between them or to bare numbers, except the unconditional TAI to TT conversion, and every conversion that needs an offset takes it explicitly. Each astronomical routine accepts only its own scale (Earth rotation UT1; precession, nutation and locator TT; ephemeris TDB), so a program that passes another scale does not compile.',
 ['programs'], 'every client program',
 'A test can only be a program that compiles; that no violating program compiles is a statement about all programs.',
 [T+'time.rs', T+'earth.rs', T+'frames.rs', T+'locator.rs'], [('newtypes', T+'time.rs'), ('routine signatures', T+'frames.rs, earth.rs, locator.rs')], None, ['public signatures and trait impls of the time types'])

prop('C08', 'Vector and matrix operations obey their algebra',
 'Vec3 add, sub, neg, scale, dot, norm and normalize are the component-wise Euclidean operations, and angle is the angle between two non-zero vectors: a number in [0, pi], never NaN, for every pair of non-zero vectors of moderate size, parallel ones included. Mat3 compose is the matrix product, transpose the transpose, identity and zero neutral; apply multiplies a vector by the transpose, so it undoes compose order consistently; rotation(axis, theta) is the right-handed frame rotation about that axis for axes 0, 1 and 2.',
 ['inputs'], 'every vector, matrix, angle and axis',
 'test_rotation only uses axis 0 and products of rotations with their inverses; apply, transpose and all vector operations are never compared with anything.',
 [T+'common.rs'], [('impl Vector for Vec3', T+'common.rs'), ('impl Matrix for Mat3', T+'common.rs')], None, ['Vector', 'Matrix'])

prop('C09', 'Earth rotation angle follows the IAU 2000 law for every UT1',
 'For every two-part UT1, in either order of its parts, rotation_angle is congruent modulo one turn to 2*pi*(0.7790572732640 + 1.00273781191135448*(UT1 - 2451545.0)). The returned angle, like any angle normalised by anp, is at least zero and strictly below 2*pi.',
 ['inputs'], 'every two-part UT1, before and after J2000, in either order; every angle',
 'The test vectors all have the J2000 epoch first and a positive offset, so negative arguments, swapped parts and the upper end of the range are never exercised.',
 [T+'earth.rs', T+'common.rs'], [('rotation_angle', T+'earth.rs'), ('anp', T+'common.rs')], None, ['earth::rotation_angle', 'common::anp'])

prop('C10', 'Precession, nutation and bias follow the IAU 2000B model for every date',
 'For every two-part TT date, past or future, nutation, precession_rate, mean_obliquity and frame_bias are the IAU 2000B expressions in Julian centuries since J2000, depending on the date only through the sum of its parts. bias_and_precession, nutation_matrix and precession_nutation are exactly the products of elementary rotations by those angles that the model prescribes, bias-precession being precession times bias and the whole being nutation times bias-precession.',
 ['inputs'], 'every two-part TT date and every angle',
 'All test vectors lie between J2000 and 2100 with positive parts; dates before 2000, other splits of the date, and the returned intermediate quantities are never sampled.',
 [T+'frames.rs'], [('nutation', T+'frames.rs'), ('bias_and_precession', T+'frames.rs'), ('nutation_matrix', T+'frames.rs'), ('PrecessionNutation::from_tt_with_nutation', T+'frames.rs')], None,
 ['frames::nutation', 'frames::precession_rate', 'frames::mean_obliquity', 'frames::frame_bias', 'frames::bias_and_precession', 'frames::nutation_matrix', 'frames::precession_nutation'])

prop('C11', 'Celestial-to-terrestrial is polar motion x Earth rotation x celestial-to-CIO',
 'celestial_to_terrestrial(tt, ut1, xp, yp) equals R1(-yp) R2(-xp) times the rotation about z by the Earth rotation angle of ut1 times celestial_to_intermediate(tt), and polar_motion_matrix(xp, yp, sp) equals R1(-yp) R2(-xp) R3(sp), for every date and pole position. celestial_to_intermediate is R3(-(E+s)) R2(d) R3(E) with E and d the polar angles of the pole (X, Y) read from the third row of the precession-nutation matrix and s the CIO locator, E being zero when X and Y are.',
 ['inputs'], 'every TT, UT1, pole position and sp',
 'The end-to-end test vectors all have zero polar motion, so exchanging or dropping the pole coordinates is invisible; dates before 2000 are not sampled.',
 [T+'frames.rs', T+'earth.rs'], [('celestial_to_terrestrial', T+'frames.rs'), ('celestial_to_intermediate_from_xys', T+'frames.rs'), ('polar_motion_matrix', T+'earth.rs')], None,
 ['frames::celestial_to_terrestrial', 'frames::celestial_to_intermediate', 'frames::celestial_to_terrestrial_from_cio_components', 'earth::polar_motion_matrix'])

prop('C12', 'The CIO locator series follows the IAU 2000 development for every date',
 'For every TT date and every X, Y, cio returns the IAU 2000 polynomial-plus-trigonometric series for s + XY/2 in Julian centuries since J2000, with every row of every table counted exactly once, minus XY/2. The fundamental arguments it uses are the IERS 2003 expressions for the Moon, Sun, Venus, Earth and general precession, up to whole turns.',
 ['inputs'], 'every two-part TT date, X and Y',
 'The test vectors lie between J2000 and 2100; dates before 2000 and other splits are not sampled, and the fundamental-argument functions are public but never tested by themselves.',
 [T+'locator.rs', T+'fundargs.rs'], [('cio', T+'locator.rs'), ('l03 ... pa03', T+'fundargs.rs'), ('KS*, SS* tables', T+'locator.rs')], None,
 ['locator::cio', 'fundargs::*'])

prop('C13', 'Earth position is the EPV00 series of the Fortran reference',
 'For every TDB date, the heliocentric Earth position is the sum over every row of the Sun-to-Earth coefficient tables of the in-repository Fortran reference, the barycentric position adds every row of the barycentre-to-Sun tables, and both are rotated from the ecliptic to the ICRS by the reference orientation matrix. No row is skipped, repeated or altered, and positions are in astronomical units.',
 ['inputs'], 'every TDB date in any split of its parts; all 2,500 rows of the coefficient tables',
 'No test compares an ephemeris value with anything: test_earth only checks that no warning is given.',
 [T+'earth.rs', T+'epv00_data.rs', 'fortran/epv00.for'], [('From<TDB> for EarthPosVel', T+'earth.rs'), ('E0..S2', T+'epv00_data.rs')], None,
 ['EarthPosVel.heliocentric.p', 'EarthPosVel.barycentric.p'])

prop('C14', 'Earth velocity is the time derivative of the Earth position, per day',
 'For every TDB date, each component of the heliocentric and barycentric velocity equals the derivative of the corresponding position component with respect to the date, in astronomical units per day of 86400 s.',
 ['inputs'], 'every TDB date, both origins, all three axes',
 'Velocities are never read by any test.',
 [T+'earth.rs'], [('From<TDB> for EarthPosVel', T+'earth.rs')], None, ['EarthPosVel.heliocentric.v', 'EarthPosVel.barycentric.v'])

prop('C15', 'The ephemeris warns exactly outside the century around J2000',
 'The ephemeris result carries a DateOutOfRange warning if and only if the date is not strictly within 100 Julian years of J2000 (before or after); a NaN date always warns. The warning changes nothing else in the result.',
 ['inputs'], 'every TDB date',
 'test_earth checks one day at J2000 for absence of the warning; no test expects a warning.',
 [T+'earth.rs'], [('From<TDB> for EarthPosVel', T+'earth.rs')], None, ['EarthPosVel.warning'])

prop('C16', 'Ellipsoid set-up is validated and geodetic to geocentric is exact',
 'EllipsoidConverter::new succeeds exactly when the flattening is in [0,1) and the radius is a positive number (NaN is never accepted), reporting InvalidFlattening or InvalidRadius otherwise (a flattening within rounding of 1 still lets the conversion report BadEccentricity), and ellipsoid() returns what was given. geodetic_to_geocentric maps longitude, latitude and height to the Cartesian point at that height along the outward ellipsoid normal (given by zenith()), for every position, and WGS84 is a = 6378137 m, 1/f = 298.257223563.',
 ['inputs'], 'every ellipsoid (a, f) and every geodetic position',
 'The only test goes forth and back on WGS84 in the southern hemisphere, so it cannot see a bad constructor bound, a wrong constant used in both directions, or anything in the north.',
 [T+'ellipsoid.rs'], [('EllipsoidConverter::new', T+'ellipsoid.rs'), ('geodetic_to_geocentric', T+'ellipsoid.rs'), ('Geodetic::zenith', T+'ellipsoid.rs')], None,
 ['EllipsoidConverter::new', 'EllipsoidConverter::geodetic_to_geocentric', 'Geodetic::zenith'])

prop('C17', 'Geocentric to geodetic is the reference algorithm in every hemisphere',
 'For every Cartesian point, geocentric_to_geodetic returns longitude atan2(y,x) (zero on the axis), a latitude that is odd and a height that is even in z, and both independent of longitude; off the axis they are the values of the reference (SOFA gc2gde) closed-form step, and on the axis the latitude is +-90 degrees and the height the distance to the pole.',
 ['inputs'], 'every Cartesian point: both hemispheres, the poles, the axis and the equator; every ellipsoid',
 'The only test stays in the southern hemisphere and away from the axis, with a tolerance that hides small errors.',
 [T+'ellipsoid.rs'], [('geocentric_to_geodetic', T+'ellipsoid.rs')], None, ['EllipsoidConverter::geocentric_to_geodetic'])

prop('C18', 'Degree and radian geodetic positions denote the same point',
 'Converting a position between radians and degrees multiplies longitude and latitude by 180/pi or its inverse and keeps the height; longitudes already in [-180,180) and latitudes already in [-90,90] degrees, both poles included, come out unchanged, and others differ by whole turns (longitude) or half turns (latitude). Every position whose angles are finite in degrees converts to a longitude in [-180,180] and a latitude in [-90,90], without panicking.',
 ['inputs'], 'every geodetic position, in range, on the boundary or beyond',
 'One mid-latitude position is converted by the tests; the poles, the date line and out-of-range angles are where normalisation goes wrong.',
 [T+'ellipsoid.rs'], [('From<&Geodetic> for Geodetic360', T+'ellipsoid.rs'), ('From<&Geodetic360> for Geodetic', T+'ellipsoid.rs')], None,
 ['Geodetic360', 'Geodetic'])

prop('C19', 'Text output shows the right quantities, in order, with fixed formats',
 'Dates print as year-month-day (4, 2, 2 digits, zero padded), times as hh:mm:ss.ssssss zero padded, date-times as date, space, time, and positions as signed, zero-padded latitude, longitude and height with 6, 6 and 2 decimals in widths 10, 11 and 9; a Geodetic prints as its degree form. The Sun angle report prints every quantity beside its own label, in the unit of the label and with its stated decimals. Each error of the library displays as the message of its own cause (for instance "bad month" for BadMonth). Each field shown is the value of the field it is labelled with, for every value.',
 ['inputs'], 'every date, time and position',
 'One position string is compared with an expected text; dates and times are never formatted under test.',
 [T+'calendar.rs', T+'ellipsoid.rs'], [('Display impls', T+'calendar.rs'), ('Display impls', T+'ellipsoid.rs')], None, ['Display for GregorianDate, HMS, GregorianDateHMS, Geodetic, Geodetic360'])

prop('C20', 'The Sun angle calculator chains the scales, frames and units correctly',
 'For every date, time, position and offset delta_s, the result holds UTC = date + time + delta_s, TAI = UTC + TAI-UTC of the date, TT = TAI + 32.184 s, UT1 = UTC + dUT1, the Earth rotation angle of that UT1, the heliocentric Earth position for that TT, the Sun vector minus that position in metres rotated to the terrestrial frame for those TT, UT1 and pole coordinates, and the zenith angle between the local vertical and that vector, in [0, pi]. The echoed offset, Julian date parts and site coordinates are those of the parameters.',
 ['inputs'], 'every valid set of parameters and every offset',
 'The crate that contains the calculator has no test at all.',
 [X+'sun_angle.rs'], [('SunAngleCalculator::new', X+'sun_angle.rs'), ('SunAngleCalculator::compute', X+'sun_angle.rs')], None, ['SunAngleResult'])

prop('C21', 'No library call panics, overflows or fails to return on any input',
 'Every public function of both crates returns normally for every argument, including NaN and infinities, every integer and dates built by hand, with only these documented exceptions: a rotation axis must be 0, 1 or 2, and SunAngleCalculator::new requires a time of day within [0,24] h and a finite position. Invalid input is reported through Result or Option, never by a panic, an arithmetic overflow, an out-of-bounds access or an endless loop.',
 ['inputs'], 'every argument of every public function',
 'Tests run on well-behaved arguments; an overflow or an out-of-range index on one unusual input is invisible to them, and release builds would silently wrap.',
 [T+'*.rs', X+'sun_angle.rs'], [('checked arithmetic, bounds and error returns', T+'calendar.rs, delta_at.rs, ellipsoid.rs, earth.rs, frames.rs, locator.rs')], None, ['all public functions'])

prop('C22', 'All computations are pure: same arguments, same result, no side effects',
 'Every public function of both crates depends only on its arguments: it performs no input/output, reads no clock, environment, random source, thread or process state, keeps no state between calls (no mutable or lazily initialised global), and contains no unsafe code. Results are therefore reproducible across calls, orders of calls and threads, and no argument passed by shared reference is modified.',
 ['histories', 'schedules', 'inputs'], 'every history of calls from any number of threads',
 'A test observes single calls in one order; a stale cache or a dependency on global state shows only for particular histories.',
 [T+'*.rs', X+'sun_angle.rs'], [('absence of statics, unsafe, I/O and interior mutability', 'both crates')], None, ['all public functions'])

prop('C23', 'Finite dates and angles give finite, bounded results',
 'For every two-part date within 10,000 years of J2000 and every angle or pole coordinate of ordinary size, the frame, rotation, locator and ephemeris routines return finite numbers, never NaN or infinity. In that range the nutation angles stay below 25 arc-seconds, the precession rate corrections below an arc-minute and the obliquity below half a radian; within a century of J2000 every position component of the Earth stays below 1.03 AU and every velocity component below 0.02 AU per day; the Earth rotation angle never exceeds a turn.',
 ['inputs'], 'every date in the stated range, every angle',
 'Tests sample 1000 dates of one century; a NaN at an isolated argument (a zero denominator, an inverse cosine slightly beyond one) is not found by sampling.',
 [T+'frames.rs', T+'earth.rs', T+'locator.rs', T+'common.rs'], [('guarded divisions, square roots and inverse trigonometric functions', T+'frames.rs, common.rs')], None, ['frames::*', 'earth::*', 'locator::cio'])

prop('C24', 'Two-part dates keep their precision',
 'Every routine that takes a two-part date first reduces the day-number part by the epoch, or combines the fractional parts separately, before mixing it with the small part: for dates split as an integer or half-integer day number plus a fraction of a day, or as a modified Julian date, or as days from J2000, the rounding error of the elapsed time, of a converted date and of the Earth rotation angle stays below five microseconds of time throughout 1800 to 2200, and so does that of a date with a time of day turned into a Julian date and of the instants the Sun angle calculator derives from it, rather than the 20 to 40 microseconds of a single floating-point Julian date.',
 ['inputs'], 'every date split as day number plus fraction between 1800 and 2200',
 'The rounding error of the naive order of operations is near or below the tolerance of the existing comparisons or in routines that are not compared at all.',
 [T+'frames.rs', T+'earth.rs', T+'locator.rs', T+'time.rs'], [('(date1 - DJ00) + date2', T+'frames.rs, earth.rs, locator.rs'), ('offset added to the smaller part', T+'time.rs')], None, ['frames::*', 'earth::*', 'locator::cio', 'time::*'])

prop('C25', 'Geodetic round trip recovers the position to sub-millimetre accuracy',
 'For every longitude, latitude and height between -10 km and 1000 km on WGS84, converting to Cartesian coordinates and back returns the position to within 1e-9 rad and 0.1 mm.',
 ['inputs'], 'every geodetic position near the Earth',
 'The test samples the southern hemisphere below 10 km; accuracy of a single Halley step everywhere is a numerical bound.',
 [T+'ellipsoid.rs'], [('geocentric_to_geodetic', T+'ellipsoid.rs')], None, ['EllipsoidConverter'])

prop('C26', 'The Earth ephemeris agrees with the JPL ephemeris to its stated accuracy',
 'Between 1900 and 2100 the Earth position returned agrees with JPL DE405 to about 14 km and the velocity to about 5 mm/s, the accuracy the EPV00 model is published with.',
 ['inputs'], 'every date between 1900 and 2100',
 'No test compares an ephemeris value with anything, and no reference ephemeris is available offline.',
 [T+'earth.rs', T+'epv00_data.rs'], [('From<TDB> for EarthPosVel', T+'earth.rs')], None, ['EarthPosVel'])

prop('C27', 'Constants, helpers, equality, copies and defaults mean what they are named',
 'Every public constant has the value it is named after to the last bit or so (pi, the degree, the turn in radians and in arc-seconds, the arc-second and milliarc-second in radians, the machine epsilon, the seconds of a day, the Julian year and century, the J2000 epoch, TT-TAI in days, the zero of the modified Julian date, the calendar limits, the astronomical unit in metres); every elementary function of the common module is the function of its name with its arguments in the documented order, rounding halves away from zero; dates, ellipsoids and positions compare equal exactly when every component does; a clone of any value equals it in every component; the default sun angle parameters are 2007-04-05 00:00:00 at latitude 0, longitude 120 degrees West, height 0.',
 ['inputs'], 'every argument of the helpers and every pair of values',
 'The constants and helpers are used by the tests and by the code alike, so a shared error cancels; equality and copies are never tested component by component.',
 [T+'common.rs', T+'time.rs', T+'calendar.rs', T+'earth.rs', T+'ellipsoid.rs', 'crates/tofas_extras/src/sun_angle.rs'], [('constants and wrappers', T+'common.rs'), ('derived equality and clones', T+'*.rs')], None, ['common::*', 'time::*', 'PartialEq and Clone of every public type', 'SunAngleParameters::default'])

prop('C28', 'Values may be shared between threads, outlive their makers and be copied',
 'Every public type can be sent to and shared by several threads and carried across a caught panic; no value but the report bundle borrows anything: a converter outlives the ellipsoid it was made from, a calculator its parameters, and a result, position or point the calculator or converter that computed it; calculators and converters compute through a shared reference; times, dates, ellipsoids, positions, vectors, matrices and precession-nutation results are copied by assignment, positions with velocity and sun angle parameters and results can be cloned; every public field can be read and moved out of its value, and dates, times, positions, ellipsoids, positions with velocity, parameters and report bundles are built from their fields; every data type has a debug form; every error is a standard error that the ? operator turns into a boxed thread-safe one.',
 ['inputs', 'schedules'], 'every program that uses the public types',
 'A test is one program on one thread; that no safe program can race, dangle or fail to build is a fact about types, which no run shows.',
 [T+'*.rs', 'crates/tofas_extras/src/sun_angle.rs'], [('calculators and converters hold plain values only', T+'ellipsoid.rs; crates/tofas_extras/src/sun_angle.rs'), ('derived traits', T+'*.rs'), ('error types', T+'calendar.rs; delta_at.rs; ellipsoid.rs')], None, ['auto traits and derives of every public type', 'EllipsoidConverter', 'SunAngleCalculator', 'SunAngleResultBundle'])

prop('C29', 'Every matrix of the frame chain is a proper rotation',
 'For every date, pole coordinate and angle of ordinary size, the rotation about each axis, the polar motion, nutation, bias, precession, bias-precession and precession-nutation matrices, and the celestial-to-intermediate and celestial-to-terrestrial matrices with all their variants have orthonormal rows and determinant +1 within 1e-10, rounding included; transposing or composing rotations gives rotations, and applying a rotation preserves the length of every vector.',
 ['inputs'], 'every pair of dates and every angle',
 'The tests compare one matrix with SOFA at one date; a term lost from one entry, a sign or a small-angle shortcut distorts lengths and angles only elsewhere.',
 [T+'frames.rs', T+'earth.rs', T+'common.rs'], [('matrices of the chain', T+'frames.rs: bias_and_precession, nutation_matrix, celestial_to_*'), ('polar motion', T+'earth.rs: polar_motion_matrix'), ('rotation, transpose, compose, apply', T+'common.rs: Matrix')], None, ['Matrix::rotation, compose, transpose, apply', 'frames::*', 'earth::polar_motion_matrix'])

prop('C30', 'Rounding in the computed quantities is negligible',
 'For every date from 1800 to 2200 in any usual split into two parts, what is computed differs from the same formula over the reals by less than: a hundredth of a microarcsecond for nutation, precession rate and mean obliquity; a microarcsecond for the CIO locator, the Earth rotation angle and every entry of the bias, precession, nutation and precession-nutation matrices, and of the polar motion, celestial-to-intermediate and celestial-to-terrestrial matrices; 1e-11 au (1.5 m) for the Earth position and 1e-12 au per day for its velocity. A geodetic position becomes geocentric within a micrometre up to 100,000 km of height; degrees and radians convert to 1e-14 rad and 1e-12 degrees; a fraction of day is exact to 1e-14 (a nanosecond); products, sums and lengths of unit-size vectors and matrices to 1e-14. The Sun position of the calculator follows from its Earth position and frame matrix to a centimetre, and the zenith angle from the two directions to 1e-6 rad.',
 ['inputs'], 'every date of four centuries, every split, every angle and position',
 'The tests compare a few values with SOFA to a tolerance at one date; a cancellation, a large angle or a narrow type shows at other dates, and by amounts no tolerance of a test sees.',
 [T+'*.rs'], [('series and polynomials', T+'frames.rs; locator.rs; earth.rs'), ('matrices', T+'common.rs; frames.rs'), ('geodesy', T+'ellipsoid.rs')], None, ['frames::*', 'locator::cio', 'earth::*', 'EllipsoidConverter::geodetic_to_geocentric', 'HMS::to_fraction_of_day'])

prop('C31', 'The command-line tools do what their options say',
 'Whatever values are given, the date tool shows the date, the time, the Julian date and the fraction of day of the year, month, day and time of its gregorian command (noon by default), and the date, fraction and time of the Julian date of its julian command, the second part being zero by default. The Sun angle tool uses each of its options for the quantity of that name, with its documented default when left out (5 April 2007, 0 h, latitude 0, longitude -120, height 0, from -600 s to 600 s by 60 s), and reports once, at the first offset, or when scanning at the first offset and then after every step up to and including the last offset. A missing or malformed option, an unknown command, an impossible date, a scan step that is not positive and an argument left over end the tool with an error and without a result.',
 ['inputs'], 'every combination of options given, left out or malformed, and every value',
 'No test runs the tools; an option that feeds the wrong quantity shows only when that option is given and the other differs from its default.',
 ['crates/tofas_extras/examples/julian_tool.rs', 'crates/tofas_extras/examples/sun_angle_tool.rs'], [('commands and options of the date tool', 'crates/tofas_extras/examples/julian_tool.rs: gregorian, julian, main'), ('options, scan loop and report of the Sun angle tool', 'crates/tofas_extras/examples/sun_angle_tool.rs: main')], None, ['julian_tool', 'sun_angle_tool'])

prop('C32', 'Every operation of the library can be used from another crate',
 'A program that depends on the two libraries can name, call and combine every documented operation with plain numbers, tuples, arrays and the public types: the calendar, the fraction of day, TAI-UTC, every time-scale conversion and total, vectors, matrices and elementary functions, the fundamental arguments, every matrix and series of the frame chain, the Earth rotation, position and velocity, ellipsoids, positions and their conversions, texts, and the Sun angle calculator. Constants can be used in constants, errors and warnings can be told apart, and the vector, matrix and TAI-UTC interfaces can be implemented for types of the program itself.',
 ['inputs'], 'every program that calls the libraries with values of the documented types',
 'The tests live inside the library and see its private items, and a test that does not compile is not a failing test; an operation closed or retyped breaks only the programs of users.',
 [T+'lib.rs', T+'*.rs', 'crates/tofas_extras/src/sun_angle.rs'], [('modules', T+'lib.rs; crates/tofas_extras/src/lib.rs'), ('public functions, constants and traits', T+'*.rs')], None, ['every public item'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
