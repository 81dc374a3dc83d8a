"""C28: public values are thread-safe, self-contained and copyable as declared; witness programs decided by rustc's trait and borrow checkers."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
import witness
from chk import *  # noqa

HEAD = """use tofas::{time::{UT1,TT,TAI,UTC,TDB},calendar::*,delta_at::*,ellipsoid::*,earth::*,frames::*,common::*}; use tofas_extras::sun_angle::*;
use std::error::Error; use std::fmt::Debug; use std::panic::{UnwindSafe,RefUnwindSafe};
fn shared<T:Send+Sync+Unpin+UnwindSafe+RefUnwindSafe>() {} fn owned<T:'static>() {} fn copy<T:Copy>() {} fn cloned<T:Clone>() {} fn debug<T:Debug>() {} fn eq<T:PartialEq>() {}
fn error<T:Error+Send+Sync+'static>() {} type E = Box<dyn Error+Send+Sync>;"""

COPY = ['UT1', 'TT', 'TAI', 'UTC', 'TDB', 'GregorianDate', 'HMS', 'GregorianDateHMS', 'Ellipsoid', 'Geodetic', 'Geodetic360', 'PrecessionNutation', 'Vec3', 'Mat3']
CLONE = ['PosVel', 'EarthPosVel', 'EarthPosVelWarning', 'SunAngleParameters', 'SunAngleResult']
BARE = ['EllipsoidConverter', 'SunAngleCalculator']
ERRORS = ['CalendarError', 'DeltaAtError', 'EllipsoidError']
EQ = ['GregorianDate', 'Ellipsoid', 'Geodetic', 'Geodetic360']
BUNDLE = "SunAngleResultBundle<'a,'b>"

USES = [
    ('a calculator is used by two threads at once', '(c:&SunAngleCalculator){std::thread::scope(|s|{s.spawn(||{c.compute(1.0);});s.spawn(||{c.compute(2.0);});});}'),
    ('a converter is used by two threads at once', '(c:&EllipsoidConverter,p:&Vec3){std::thread::scope(|s|{s.spawn(||{c.geocentric_to_geodetic(p);});s.spawn(||{c.ellipsoid();});});}'),
    ('a calculator is moved to another thread', '(c:SunAngleCalculator)->std::thread::JoinHandle<SunAngleResult>{std::thread::spawn(move||c.compute(0.0))}'),
    ('a calculator is shared by counted references', '(c:SunAngleCalculator)->std::sync::Arc<dyn Send+Sync>{std::sync::Arc::new(c)}'),
    ('a panic may be caught around a computation', '(c:&SunAngleCalculator)->bool{std::panic::catch_unwind(||{c.compute(0.0);}).is_ok()}'),
    ('a result outlives the calculator', '(c:SunAngleCalculator)->SunAngleResult{let r=c.compute(0.0);drop(c);r}'),
    ('a calculator outlives its parameters', '(p:SunAngleParameters)->SunAngleCalculator{let c=SunAngleCalculator::new(&p);drop(p);c}'),
    ('a converter outlives its ellipsoid', '(a:f64,f:f64)->Result<EllipsoidConverter,EllipsoidError>{let e=Ellipsoid{a,f};EllipsoidConverter::new(&e)}'),
    ('a position outlives the converter', '(c:EllipsoidConverter,p:Vec3)->Geodetic{let g=c.geocentric_to_geodetic(&p);drop(c);g}'),
    ('a point outlives the converter', '(c:EllipsoidConverter,g:Geodetic)->Result<Vec3,EllipsoidError>{let p=c.geodetic_to_geocentric(&g);drop(c);p}'),
    ('a calculator is used through a shared reference', '(c:&SunAngleCalculator)->(SunAngleResult,SunAngleResult){(c.compute(0.0),c.compute(1.0))}'),
    ('a bundle borrows for as long as needed', "<'a>(b:SunAngleResultBundle<'static,'static>)->SunAngleResultBundle<'a,'a>{b}"),
    ('parts of a bundle have their own lifetimes', "<'a,'b>(b:SunAngleResultBundle<'a,'b>)->(&'a SunAngleParameters,&'b SunAngleResult){(b.parameters,b.result)}"),
    ('a date error passes through ?', '(y:i32)->Result<(f64,f64),E>{Ok(GregorianDate::new(y,1,1)?.to_julian())}'),
    ('a Julian date error passes through ?', '(j:f64)->Result<GregorianDateHMS,E>{Ok(GregorianDateHMS::from_julian(j,0.0)?)}'),
    ('a TAI-UTC error passes through ?', '(d:GregorianDate)->Result<Option<f64>,E>{Ok(d.delta_at(0.5)?)}'),
    ('an ellipsoid error passes through ?', '(e:&Ellipsoid,g:&Geodetic)->Result<Vec3,E>{Ok(EllipsoidConverter::new(e)?.geodetic_to_geocentric(g)?)}'),
    ('dates and times are built from their fields', "(y:i32,h:u8,s:f64)->(GregorianDate,HMS,GregorianDateHMS){let date=GregorianDate{year:y,month:1,day:1};let hms=HMS{hour:h,minute:0,second:s};(date,hms,GregorianDateHMS{date,hms})}"),
    ('positions and ellipsoids are built from their fields', "(x:f64)->(Ellipsoid,Geodetic,Geodetic360){(Ellipsoid{a:x,f:x},Geodetic{elong:x,phi:x,height:x},Geodetic360{lon:x,lat:x,height:x})}"),
    ('times are built from their two parts and taken apart', "(x:(f64,f64))->[(f64,f64);5]{let (UT1(a),TT(b),TAI(c),UTC(d),TDB(e))=(UT1(x),TT(x),TAI(x),UTC(x),TDB(x));[a,b,c,d,e]}"),
    ('parameters and bundles are built from their fields', "<'a>(date:GregorianDate,time:HMS,position:Geodetic360,p:&'a SunAngleParameters,result:&'a SunAngleResult)->(SunAngleParameters,SunAngleResultBundle<'a,'a>){(SunAngleParameters{date,time,position},SunAngleResultBundle{parameters:p,result})}"),
    ('dates and times come apart', "(d:GregorianDateHMS)->(i32,i32,i32,u8,u8,f64){let GregorianDateHMS{date:GregorianDate{year,month,day},hms:HMS{hour,minute,second}}=d;(year,month,day,hour,minute,second)}"),
    ('positions come apart', "(e:Ellipsoid,g:Geodetic,d:Geodetic360)->[f64;8]{let (Ellipsoid{a,f},Geodetic{elong,phi,height:h},Geodetic360{lon,lat,height})=(e,g,d);[a,f,elong,phi,h,lon,lat,height]}"),
    ('a position with velocity is built and comes apart', "(p:Vec3,v:Vec3)->(Vec3,Vec3){let PosVel{p,v}=PosVel{p,v};(p,v)}"),
    ('an Earth position gives up its parts', "(e:EarthPosVel)->(Vec3,Vec3,PosVel,Option<EarthPosVelWarning>){let EarthPosVel{heliocentric,barycentric,warning,..}=e;(heliocentric.p,heliocentric.v,barycentric,warning)}"),
    ('a result gives up its parts', "(r:SunAngleResult)->([f64;5],[[f64;3];3],UTC,TAI,TT,UT1){let SunAngleResult{jd0,jd1,delta_s,p,utc,dat,tai,tt,ut1,era,earth,sun_e,sza,..}=r;([jd0+jd1,delta_s,dat,era,sza],[p,earth,sun_e],utc,tai,tt,ut1)}"),
    ('parameters give up their parts', "(p:SunAngleParameters)->(GregorianDate,HMS,Geodetic360){let SunAngleParameters{date,time,position}=p;(date,time,position)}"),
    ('WGS84 is a constant', '()->&\'static Ellipsoid{&WGS84}'),
]

# what must not compile: that the accepted programs mean something
BAD = [
    ('a counted reference is not shared', '(){shared::<std::rc::Rc<u8>>()}', 'E0277'),
    ('a cell is not shared', '(){shared::<std::cell::Cell<u8>>()}', 'E0277'),
    ('a reference into the bundle does not outlive its result', "<'a>(p:&'a SunAngleParameters,r:SunAngleResult)->SunAngleResultBundle<'a,'a>{SunAngleResultBundle{parameters:p,result:&r}}", 'E0515'),
    ('the ellipsoid of a converter does not outlive it', "<'a>(e:&'a Ellipsoid)->&'a Ellipsoid{let c=EllipsoidConverter::new(e).unwrap();c.ellipsoid()}", 'E0515'),
]


def body(c):
    good = []
    for t in COPY + CLONE + BARE + ERRORS:
        good.append((t + ' is safe to share and send', '(){shared::<%s>()}' % t))
        good.append((t + ' borrows nothing', '(){owned::<%s>()}' % t))
        if t not in BARE:
            good.append((t + ' has a debug form', '(){debug::<%s>()}' % t))
    for t in COPY:
        good.append((t + ' is copied', '(){copy::<%s>()}' % t))
    for t in CLONE + COPY:
        good.append((t + ' is cloned', '(){cloned::<%s>()}' % t))
    for t in EQ:
        good.append((t + ' is compared', '(){eq::<%s>()}' % t))
    for t in ERRORS:
        good.append((t + ' is a boxable error', '(){error::<%s>()}' % t))
    for f in ('shared', 'cloned', 'debug'):
        good.append(('the report bundle: ' + f, "<'a,'b>(){%s::<%s>()}" % (f, BUNDLE)))
    good += USES
    both = ('tofas', 'tofas_extras')
    rc, errs, text = witness.compile(c, good, 'values', HEAD, both)
    for i, (name, code) in enumerate(good):
        c.ob(name, not errs.get(i), 'rejected by the compiler: %s' % errs.get(i), 'program: fn w%s' % code)
    c.ob('witnesses compile', rc == 0, 'rustc: ' + text[:300])
    for i, (name, code, want) in enumerate(BAD):
        rc, errs, text = witness.compile(c, [(name, code)], 'bad%d' % i, HEAD, both)
        c.ob(name, want in errs.get(0, []), 'accepted by the compiler' if rc == 0 else 'rejected for another reason: %s' % text[:200], 'program: fn w%s' % code)
    c.notes['witnesses'] = '%d accepted programs, %d rejected ones' % (len(good), len(BAD))
    c.notes['rule'] = 'auto traits, Copy, Clone, Debug, PartialEq and Error bounds of every public type, ownership of results, and use from several threads'


if __name__ == '__main__':
    main('C28', body, floor=110, level='other')
