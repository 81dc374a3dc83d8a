"""C32: every documented operation can be used from another crate; witness programs decided by rustc's name, privacy and type checks."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import witness
from chk import *  # noqa

HEAD = """use tofas::{time::{UT1,TT,TAI,UTC,TDB},calendar::{self,GregorianDate,HMS,GregorianDateHMS,CalendarError},delta_at::{DeltaAt,DeltaAtError},ellipsoid::{Ellipsoid,EllipsoidConverter,EllipsoidError,Geodetic,Geodetic360},earth::{self,EarthPosVel,EarthPosVelWarning,PosVel},frames::{self,PrecessionNutation},common::{self,Matrix,Vector,R,Vec3,Mat3},fundargs,locator}; use tofas_extras::sun_angle::{SunAngleParameters,SunAngleCalculator,SunAngleResult,SunAngleResultBundle};"""

ONE = ('sqrt', 'sq', 'sin', 'cos', 'tan', 'acos', 'asin', 'atan', 'abs', 'floor', 'round', 'anp')
CONST = [('common', 'f64', ('PI', 'DEGREE', 'EPSILON', 'TWO_PI', 'AS2R', 'MAS2R', 'TURNAS')), ('time', 'f64', ('D2S', 'DJY', 'DJ00', 'DJC', 'DTAT')),
         ('calendar', 'f64', ('MJD_ZERO', 'DJ_MIN', 'DJ_MAX')), ('calendar', 'i32', ('YEAR_MIN',)), ('earth', 'f64', ('AUM',)), ('ellipsoid', 'Ellipsoid', ('WGS84',))]
FUND = ('l03', 'lp03', 'f03', 'd03', 'om03', 've03', 'e03', 'pa03')
VEC = [('norm', '', 'f64'), ('normalize', '', 'Vec3'), ('scale', '2.0', 'Vec3'), ('add', 'b', 'Vec3'), ('sub', 'b', 'Vec3'), ('neg', '', 'Vec3'), ('dot', 'b', 'f64'), ('angle', 'b', 'f64')]

# name, parameters, result, expression
USES = [
    ('a number is an f64, a vector three of them, a matrix three vectors', 'x:f64', '(R,Vec3,Mat3)', '(x,[x;3],[[x;3];3])'),
    ('arc tangent of two arguments', 'x:f64', 'f64', 'common::atan2(x,x)'),
    ('zero and identity', '', '(Mat3,Mat3)', '(Mat3::zero(),Mat3::identity())'),
    ('a matrix applied', 'm:&Mat3,x:Vec3', 'Vec3', 'm.apply(x)'),
    ('matrices composed', 'm:&Mat3,n:&Mat3', 'Mat3', 'm.compose(n)'),
    ('a matrix transposed', 'm:&Mat3', 'Mat3', 'm.transpose()'),
    ('a rotation', 'x:f64', 'Mat3', 'Mat3::rotation(2,x)'),
    ('matrices of other libraries', '', '()', 'struct M; impl Matrix for M { type Vector = Vec3; fn zero()->M {M} fn identity()->M {M} fn apply(&self,x:Vec3)->Vec3 {x} fn compose(&self,_:&M)->M {M} fn transpose(&self)->M {M} fn rotation(_:usize,_:f64)->M {M} }'),
    ('vectors of other libraries', '', '()', 'struct V; impl Vector for V { fn norm(self)->f64 {0.0} fn normalize(self)->V {V} fn scale(self,_:f64)->V {V} fn add(self,_:V)->V {V} fn sub(self,_:V)->V {V} fn neg(self)->V {V} fn dot(self,_:V)->f64 {0.0} fn angle(self,_:V)->f64 {0.0} }'),
    ('dates of other libraries have a TAI-UTC', '', '()', 'struct D; impl DeltaAt for D { fn delta_at(&self,_:f64)->Result<Option<f64>,DeltaAtError> {Ok(None)} }'),
    ('TAI-UTC of any date', "d:&dyn DeltaAt", 'Result<Option<f64>,DeltaAtError>', 'd.delta_at(0.5)'),
    ('TAI-UTC of a date', 'd:GregorianDate', 'Result<Option<f64>,DeltaAtError>', 'd.delta_at(0.5)'),
    ('a date', 'y:i32', 'Result<GregorianDate,CalendarError>', 'GregorianDate::new(y,1,1)'),
    ('Julian date of a date', 'd:&GregorianDate', '(f64,f64)', 'd.to_julian()'),
    ('date of a Julian date', 'j:f64', 'Result<(GregorianDate,f64),CalendarError>', 'GregorianDate::from_julian(j,j)'),
    ('a time of day', 'h:u8,s:f64', 'HMS', 'HMS::new(h,h,s)'),
    ('time of a fraction of day', 'f:f64', 'Result<HMS,CalendarError>', 'HMS::from_fraction_of_day(f)'),
    ('fraction of day of a time', 'h:&HMS', 'f64', 'h.to_fraction_of_day()'),
    ('date and time of a Julian date', 'j:f64', 'Result<GregorianDateHMS,CalendarError>', 'GregorianDateHMS::from_julian(j,j)'),
    ('Julian date of a date and time', 'd:&GregorianDateHMS', '(f64,f64)', 'd.to_julian()'),
    ('texts', 'd:&GregorianDate,h:&HMS,b:&GregorianDateHMS,g:&Geodetic,p:&Geodetic360,r:&SunAngleResultBundle', '[String;6]', '[d.to_string(),h.to_string(),b.to_string(),g.to_string(),p.to_string(),r.to_string()]'),
    ('calendar errors are told apart', 'e:CalendarError', 'u8', 'match e { CalendarError::BadYear=>0,CalendarError::BadMonth=>1,CalendarError::BadDay=>2,CalendarError::BadJulian=>3,CalendarError::BadFract=>4,_=>5 }'),
    ('ellipsoid errors are told apart', 'e:EllipsoidError', 'u8', 'match e { EllipsoidError::InvalidRadius=>0,EllipsoidError::InvalidFlattening=>1,EllipsoidError::BadEccentricity=>2,EllipsoidError::BadCoordinates=>3,_=>4 }'),
    ('TAI-UTC errors are recognised', 'e:DeltaAtError', 'bool', 'matches!(e,DeltaAtError::BadFract)'),
    ('the warning of the ephemeris is recognised', 'e:EarthPosVel', 'bool', 'matches!(e.warning,Some(EarthPosVelWarning::DateOutOfRange))'),
    ('TT from UT1', 't:UT1', 'TT', 'TT::from_ut1(t,60.0)'),
    ('UT1 from TT', 't:TT', 'UT1', 'UT1::from_tt(t,60.0)'),
    ('TAI from UTC', 't:UTC', 'TAI', 'TAI::from_utc_delta_at(t,37.0)'),
    ('TT from TAI', 't:TAI', '(TT,TT)', '(TT::from(t),t.into())'),
    ('TDB from TT', 't:TT', 'TDB', 'TDB::from_tt(t,0.0)'),
    ('totals', 'a:UT1,b:TT,c:TAI,d:UTC', 'f64', 'a.total()+b.total()+c.total()+d.total()'),
    ('Earth rotation angle', 't:UT1', 'f64', 'earth::rotation_angle(t)'),
    ('polar motion', 'x:f64', 'Mat3', 'earth::polar_motion_matrix(x,x,x)'),
    ('Earth position and velocity', 't:TDB', 'EarthPosVel', 'EarthPosVel::from(t)'),
    ('heliocentric and barycentric parts', 't:TDB', '(PosVel,PosVel)', 'let e : EarthPosVel = t.into(); (e.heliocentric,e.barycentric)'),
    ('celestial to terrestrial', 't:TT,u:UT1,x:f64', 'Mat3', 'frames::celestial_to_terrestrial(t,u,x,x)'),
    ('celestial to intermediate', 't:TT', 'Mat3', 'frames::celestial_to_intermediate(t)'),
    ('celestial to intermediate with a given matrix', 't:TT,m:&Mat3', 'Mat3', 'frames::celestial_to_intermediate_with_bpn(t,m)'),
    ('celestial to intermediate with a given pole', 't:TT,x:f64', 'Mat3', 'frames::celestial_to_intermediate_with_bpn_and_xy(t,x,x)'),
    ('celestial to intermediate with pole and locator', 'x:f64', 'Mat3', 'frames::celestial_to_intermediate_from_xys(x,x,x)'),
    ('celestial to terrestrial from its parts', 'm:&Mat3,x:f64', 'Mat3', 'frames::celestial_to_terrestrial_from_cio_components(m,x,m)'),
    ('the pole of a matrix', 'm:&Mat3', '(f64,f64)', 'frames::xy_from_bpn(m)'),
    ('precession-nutation matrix', 't:TT', 'Mat3', 'frames::precession_nutation(t)'),
    ('precession-nutation results', 't:TT,x:f64', '(PrecessionNutation,PrecessionNutation,f64)', 'let p = PrecessionNutation::from(t); (p,PrecessionNutation::from_tt_with_nutation(t,x,x),p.dpsi)'),
    ('nutation', 't:TT', '(f64,f64)', 'frames::nutation(t)'),
    ('precession rate', 't:TT', '(f64,f64)', 'frames::precession_rate(t)'),
    ('mean obliquity', 't:TT', 'f64', 'frames::mean_obliquity(t)'),
    ('bias and precession', 't:TT', '(Mat3,Mat3,Mat3)', 'frames::bias_and_precession(t)'),
    ('frame bias', '', '(f64,f64,f64)', 'frames::frame_bias()'),
    ('nutation matrix', 'x:f64', 'Mat3', 'frames::nutation_matrix(x,x,x)'),
    ('CIO locator', 't:TT,x:f64', 'f64', 'locator::cio(t,x,x)'),
    ('an ellipsoid converter', 'e:&Ellipsoid', 'Result<EllipsoidConverter,EllipsoidError>', 'EllipsoidConverter::new(e)'),
    ('the ellipsoid of a converter', 'c:&EllipsoidConverter', 'f64', 'c.ellipsoid().a'),
    ('geocentric to geodetic', 'c:&EllipsoidConverter,p:&Vec3', 'Geodetic', 'c.geocentric_to_geodetic(p)'),
    ('geodetic to geocentric', 'c:&EllipsoidConverter,g:&Geodetic', 'Result<Vec3,EllipsoidError>', 'c.geodetic_to_geocentric(g)'),
    ('degrees and radians', 'g:Geodetic,d:Geodetic360', '(Geodetic,Geodetic,Geodetic360,Geodetic360)', '(d.into(),(&d).into(),g.into(),(&g).into())'),
    ('the local vertical', 'g:&Geodetic', 'Vec3', 'g.zenith()'),
    ('Sun angles', 'p:&SunAngleParameters', 'SunAngleResult', 'SunAngleCalculator::new(p).compute(0.0)'),
    ('default Sun angle parameters', '', 'SunAngleParameters', 'SunAngleParameters{time:HMS{hour:1,minute:2,second:3.0},..Default::default()}'),
]


def body(c):
    good = [(n, '(%s)->%s{%s}' % a) for n, *a in USES for a in [tuple(a)]]
    good += [('common::' + f, '(x:f64)->f64{common::%s(x)}' % f) for f in ONE]
    good += [('fundargs::' + f, '(t:f64)->f64{fundargs::%s(t)}' % f) for f in FUND]
    good += [('vector ' + f, '(a:Vec3,b:Vec3)->%s{a.%s(%s)}' % (r, f, x)) for f, x, r in VEC]
    for m, ty, l in CONST:
        good += [('%s::%s in a constant' % (m, n), '()->%s{const X:%s=tofas::%s::%s;X}' % (ty, ty, m, n)) for n in l]
    good.append(('errors of the same kind', "(){mod e { tofas::common::custom_error!{ pub MyError Bad = \"bad\" } } let _:e::MyError=e::MyError::Bad;}"))
    rc, errs, out = witness.compile(c, good, 'uses', HEAD, ('tofas', 'tofas_extras'))
    for i, (name, code) in enumerate(good):
        c.ob(name, not errs.get(i), 'rejected by the compiler: %s' % errs.get(i), 'program: fn w%s' % code)
    c.ob('witnesses compile', rc == 0, 'rustc: ' + out[:300])
    rc, errs, out = witness.compile(c, [('an item that does not exist', '()->f64{common::no_such_function(0.0)}')], 'none', HEAD, ('tofas', 'tofas_extras'))
    c.ob('an unknown operation is rejected', 'E0425' in errs.get(0, []), 'accepted' if rc == 0 else out[:200])
    c.notes['witnesses'] = '%d programs outside the crates' % len(good)
    c.notes['rule'] = 'every documented function, conversion, constant, trait and error is named, called and typed from another crate'


if __name__ == '__main__':
    main('C32', body, floor=100, level='other')
