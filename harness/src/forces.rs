//! What pulls and pushes a satellite: each term alone against whole vectors, models against the sum of their terms.
use crate::common::*;
use crate::{bail, ensure};
use principia::PrincipiaError;
use serde_json::Value;
use siderust::astro::dynamics::density::{geodetic_altitude, ConstantDensity, DensityProvider, ExponentialAtmosphere, Nrlmsise00LiteApprox};
use siderust::astro::dynamics::forces::*;
use siderust::astro::dynamics::gravity::{GravityFieldProvider, LowDegreeEarth, TwoBodyEarth};
use siderust::astro::dynamics::{DynamicsContext, DynamicsError, OrbitState, Position, Velocity};
use siderust::astro::earth_rotation::jd_ut1_from_tt;
use siderust::coordinates::centers::{Barycentric, Geocentric, Heliocentric};
use siderust::coordinates::frames::{EclipticMeanJ2000, GCRS};
use siderust::coordinates::transform::providers::frame_rotation;
use siderust::coordinates::transform::AstroContext;
use siderust::coordinates::cartesian;
use siderust::ephemeris::{DynEphemeris, EphemerisError};
use siderust::pod::force::*;
use siderust::pod::propagation::PodDynamicsError;
use siderust::qtty::length::{AstronomicalUnit, Kilometer, Kilometers};
use siderust::qtty::time::{Day, Seconds};
use siderust::qtty::{AreaToMass, DragCoefficient, InverseSeconds, KilogramsPerCubicMeter, KmPerSecondsSquared, Per, Ratios, SrpCoefficient};
use siderust::time::JulianDate;
use std::f64::consts::{PI, TAU};
use std::sync::{Arc, Mutex};

type V = [f64; 3];
const GM: f64 = 398_600.441_8;
const RE: f64 = 6_378.137;
const AU: f64 = 149_597_870.7;
const C: f64 = 299_792.458;
fn three(v: &Value) -> V { let a = ints(v); [a[0] as f64, a[1] as f64, a[2] as f64] }
fn times(v: V, k: f64) -> V { v.map(|x| x * k) }
fn plus(a: V, b: V) -> V { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn len(v: V) -> f64 { (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt() }
fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn off(a: V, b: V) -> f64 { len(plus(a, times(b, -1.0))) }
fn turned(v: V, t: f64) -> V { let (s, c) = t.sin_cos(); [c * v[0] - s * v[1], s * v[0] + c * v[1], v[2]] }
fn state(jd: f64, r: V, v: V) -> OrbitState {
    OrbitState::new(JulianDate::new(jd).into(), Position::<GCRS>::new(r[0], r[1], r[2]), Velocity::<GCRS>::new(v[0], v[1], v[2]))
}
fn pull<M: AccelerationModel<DynamicsContext, siderust::time::TT, Geocentric, GCRS> + ?Sized>(m: &M, s: &OrbitState, c: &DynamicsContext) -> Result<V, PrincipiaError> {
    m.acceleration(s, c).map(|a| [a.x().value(), a.y().value(), a.z().value()])
}
macro_rules! near {
    ($got:expr, $want:expr, $tol:expr, $key:expr, $($a:tt)*) => {{
        let want: V = $want;
        match $got { Ok(g) => { let g: V = g; ensure!(off(g, want) <= $tol * len(want) + 1e-300, $key, "{}: got {g:?}, expected {want:?}", format!($($a)*)) }, Err(e) => bail!($key, "{}: refused: {e}", format!($($a)*)) }
    }};
}

/// the Sun and the Moon where they are put (from the Earth, equatorial, km), and the epochs asked for
struct Put { sun: V, moon: V, asked: Mutex<Vec<f64>> }
fn ecliptic(v: V) -> V {
    let m = frame_rotation::<GCRS, EclipticMeanJ2000>(JulianDate::new(2_451_545.0), &AstroContext::default());
    let m = m.as_matrix();
    std::array::from_fn(|r| (0..3).map(|k| m[r][k] * v[k]).sum())
}
const EARTH: V = [0.5, -0.25, 0.125];
type Au = AstronomicalUnit;
type Ecl = EclipticMeanJ2000;
impl Put {
    fn new(sun: V, moon: V) -> Arc<Self> { Arc::new(Put { sun, moon, asked: Mutex::new(vec![]) }) }
    fn note(&self, jd: JulianDate) { self.asked.lock().unwrap().push(jd.raw().value()) }
}
impl DynEphemeris for Put {
    fn try_sun_barycentric(&self, jd: JulianDate) -> Result<cartesian::Position<Barycentric, Ecl, Au>, EphemerisError> { Ok(self.sun_barycentric(jd)) }
    fn sun_barycentric(&self, jd: JulianDate) -> cartesian::Position<Barycentric, Ecl, Au> { self.note(jd); let s = plus(times(ecliptic(self.sun), 1.0 / AU), EARTH); cartesian::Position::new(s[0], s[1], s[2]) }
    fn try_earth_barycentric(&self, jd: JulianDate) -> Result<cartesian::Position<Barycentric, Ecl, Au>, EphemerisError> { Ok(self.earth_barycentric(jd)) }
    fn earth_barycentric(&self, jd: JulianDate) -> cartesian::Position<Barycentric, Ecl, Au> { self.note(jd); cartesian::Position::new(EARTH[0], EARTH[1], EARTH[2]) }
    fn try_earth_heliocentric(&self, jd: JulianDate) -> Result<cartesian::Position<Heliocentric, Ecl, Au>, EphemerisError> { Ok(self.earth_heliocentric(jd)) }
    fn earth_heliocentric(&self, _: JulianDate) -> cartesian::Position<Heliocentric, Ecl, Au> { let s = times(ecliptic(self.sun), -1.0 / AU); cartesian::Position::new(s[0], s[1], s[2]) }
    fn try_earth_barycentric_velocity(&self, jd: JulianDate) -> Result<cartesian::Velocity<Ecl, Per<Au, Day>>, EphemerisError> { Ok(self.earth_barycentric_velocity(jd)) }
    fn earth_barycentric_velocity(&self, _: JulianDate) -> cartesian::Velocity<Ecl, Per<Au, Day>> { cartesian::Velocity::new(0.0, 0.0, 0.0) }
    fn try_moon_geocentric(&self, jd: JulianDate) -> Result<cartesian::Position<Geocentric, Ecl, Kilometer>, EphemerisError> { Ok(self.moon_geocentric(jd)) }
    fn moon_geocentric(&self, jd: JulianDate) -> cartesian::Position<Geocentric, Ecl, Kilometer> { self.note(jd); let m = ecliptic(self.moon); cartesian::Position::new(m[0], m[1], m[2]) }
}
/// a field with large harmonics
struct Lumpy;
fn lump(n: usize, m: usize, s: bool) -> f64 { if n < 2 { return if n == 0 && !s { 1.0 } else { 0.0 } } if s && m == 0 { return 0.0 } let k = (n * 7 + m * 3 + s as usize) as f64; (k * 1.7).sin() / 16.0 }
impl GravityFieldProvider for Lumpy {
    fn mu(&self) -> GravitationalParameter { GravitationalParameter::new(GM) }
    fn reference_radius(&self) -> Kilometers { Kilometers::new(RE) }
    fn max_degree(&self) -> usize { 4 }
    fn c_normalized(&self, n: usize, m: usize) -> Result<f64, PrincipiaError> { Ok(lump(n, m, false)) }
    fn s_normalized(&self, n: usize, m: usize) -> Result<f64, PrincipiaError> { Ok(lump(n, m, true)) }
}
/// air that remembers the heights it was asked for
#[derive(Default)]
struct Air { asked: Mutex<Vec<f64>> }
impl DensityProvider for Air {
    fn name(&self) -> &'static str { "air" }
    fn density(&self, h: Kilometers) -> Result<KilogramsPerCubicMeter, DynamicsError> { self.asked.lock().unwrap().push(h.value()); Ok(KilogramsPerCubicMeter::new(2.0e-12)) }
}
/// EGM2008, degree, order, C, S
const EGM: [(usize, usize, f64, f64); 12] = [
    (2, 0, -0.484165143790815e-03, 0.0), (2, 1, -0.206615509074176e-09, 0.138441389137979e-08), (2, 2, 0.243938357328313e-05, -0.140027370385934e-05),
    (3, 0, 0.957161207093473e-06, 0.0), (3, 1, 0.203046201047864e-05, 0.248200415856872e-06), (3, 2, 0.904787894809528e-06, -0.619005475177618e-06), (3, 3, 0.721321757121568e-06, 0.141434926192941e-05),
    (4, 0, 0.539965866638991e-06, 0.0), (4, 1, -0.536157389388867e-06, -0.473567346518086e-06), (4, 2, 0.350501623962649e-06, 0.662480026275829e-06), (4, 3, 0.990856766672321e-06, -0.200956723567452e-06), (4, 4, -0.188519633023033e-06, 0.308803882149194e-06)];
/// the day, and TT - UT1 then
const DAYS: [(f64, f64); 4] = [(2_451_545.0, 63.83), (2_455_197.75, 66.07), (2_457_754.5, 68.59), (2_446_431.25, 54.9)];
fn era(jd: f64) -> f64 { let t = jd - 2_451_545.0; TAU * (0.779_057_273_264_0 + t.rem_euclid(1.0) + 0.002_737_811_911_354_48 * t) }
fn q(x: f64) -> KmPerSecondsSquared { KmPerSecondsSquared::new(x) }

fn gravity(v: &Value) -> Outcome {
    let body = times(three(&v["r"]), 1000.0);
    let n0 = ints(&v["r"])[3] as f64;
    let central = times(three(&v["r"]), -GM / (1.0e6 * n0.powi(3)));
    // the pull of one harmonic with its coefficient one, not normalized
    let one = |h: &Value| -> V {
        let n = i(h, "n") as i32;
        times(three(&h["a"]), GM * (RE / 1000.0).powi(n) / (1.0e6 * n0.powi(2 * n + 3) * i(h, "over") as f64))
    };
    let unit = |h: &Value| { let u = ints(&h["unit"]); (u[0] as f64 / u[1] as f64).sqrt() };
    let polar = body[0] == 0.0 && body[1] == 0.0;
    for (jd, dt) in DAYS {
        let ut1 = jd_ut1_from_tt(JulianDate::new(jd)).raw().value();
        ensure!(((jd - ut1) * 86400.0 - dt).abs() < 1.0, "ut1", "{jd}: TT - UT1 is {}", (jd - ut1) * 86400.0);
        let turn = era(ut1);
        for (which, field) in [("lumpy", Arc::new(Lumpy) as Arc<dyn GravityFieldProvider + Send + Sync>), ("Earth", Arc::new(LowDegreeEarth))] {
            let ctx = DynamicsContext::builder().with_gravity(field).build();
            for degree in 0..=5usize { for order in 0..=5usize {
                let m = Geopotential::new(degree, order);
                let s = state(jd, turned(body, turn), [1.0, 2.0, 3.0]);
                let got = pull(&m, &s, &ctx);
                if degree > 4 || order > degree { ensure!(got.is_err(), "degree", "{degree} by {order} of a field of four: {got:?}"); continue; }
                // at a pole the terms of order one are left out by the dependency
                if polar && order > 0 { continue; }
                let mut want = [0.0; 3];
                for h in arr(v, "pull") {
                    let (n, mm) = (i(h, "n") as usize, i(h, "m") as usize);
                    if n > degree || mm > order { continue; }
                    let sine = st(h, "c") == "s";
                    let k = if which == "lumpy" { lump(n, mm, sine) } else { if sine { LowDegreeEarth.s_normalized(n, mm).unwrap() } else { LowDegreeEarth.c_normalized(n, mm).unwrap() } };
                    want = plus(want, times(one(h), k * unit(h)));
                }
                let extra = match got { Ok(g) => plus(turned(g, -turn), times(central, -1.0)), Err(e) => bail!("geopotential", "{degree} by {order}: {e}") };
                ensure!(off(extra, want) <= 1e-8 * len(want) + 1e-13 * len(central), "geopotential", "{which} {degree} by {order} at {:?} in the Earth's axes, JD {jd}: besides the centre {extra:?}, expected {want:?}", body);
                cov("fields");
            } }
            let f = Geopotential::full(4);
            ensure!(f.degree == 4 && f.order == 4, "full", "{f:?}");
        }
    }
    let s = state(2_451_545.0, body, [0.0, 7.0, 0.0]);
    let none = DynamicsContext::empty();
    near!(pull(&TwoBody::new(GM_EARTH), &s, &none), central, 1e-13, "two-body", "{v}");
    let h20 = &v["pull"][0];
    near!(pull(&J2::new(GM_EARTH, R_EARTH, EARTH_J2), &s, &none), times(one(h20), -1.082_626_68e-3), 1e-12, "j2", "{body:?}");
    let ctx = DynamicsContext::builder().with_gravity(Arc::new(TwoBodyEarth)).build();
    near!(pull(&Geopotential::full(0), &s, &ctx), central, 1e-13, "geopotential", "two-body field");
    ensure!(pull(&Geopotential::full(2), &s, &ctx).is_err(), "degree", "degree two of a field of none");
    ensure!(pull(&Geopotential::full(0), &s, &none).is_err(), "missing", "no field");
    for (at, fine) in [(99.0, false), (101.0, true), (0.0, false)] {
        let s = state(2_451_545.0, times(body, at / len(body)), [0.0, 7.0, 0.0]);
        for (n, g) in [("two-body", pull(&TwoBody::new(GM_EARTH), &s, &none)), ("j2", pull(&J2::new(GM_EARTH, R_EARTH, EARTH_J2), &s, &none)), ("relativity", pull(&CentralBodyRelativity1Pn::earth(), &s, &none))] {
            ensure!(g.is_ok() == fine, "degenerate", "{n} at {at} km of the centre: {g:?}");
        }
    }
    let wrong: Vec<String> = EGM.iter().filter(|(n, m, c, s)| {
        let got = (LowDegreeEarth.c_normalized(*n, *m).unwrap(), LowDegreeEarth.s_normalized(*n, *m).unwrap());
        (got.0 - c).abs() >= 0.01 * c.abs() || (got.1 - s).abs() > 0.01 * s.abs()
    }).map(|e| format!("{}-{}", e.0, e.1)).collect();
    ensure!(wrong.is_empty(), &format!("egm:{}", wrong.join(",")), "the harmonics {wrong:?} of the Earth are not those of EGM2008");
    Ok(())
}
fn asked(p: &Put, jd: f64) -> Outcome {
    for a in p.asked.lock().unwrap().drain(..) { ensure!((a - jd).abs() < 1e-8, "epoch", "the ephemeris was asked for JD {a}, the state is of {jd}"); }
    Ok(())
}
fn third(v: &Value) -> Outcome {
    let (r, b, way) = (times(three(&v["r"]), 1e3), times(three(&v["b"]), 1e3), times(three(&v["way"]), 1e3));
    let (d, bl) = ((i(v, "d2") as f64).sqrt() * 1e3, (i(v, "b2") as f64).sqrt() * 1e3);
    let tide = |gm: f64| plus(times(way, gm / d.powi(3)), times(b, -gm / bl.powi(3)));
    let (sun, moon) = (132_712_440_041.279_42, 4_902.800_118);
    let elsewhere = [-1.0e9, 2.0e9, -2.0e9];
    for jd in [2_451_545.0, 2_457_754.625] {
        let s = state(jd, r, [0.0, 7.0, 0.0]);
        for which in 0..3 {
            let eph = Put::new(if which == 1 { elsewhere } else { b }, if which == 0 { elsewhere } else { b });
            let ctx = DynamicsContext::builder().with_ephemeris(eph.clone()).build();
            let model = [ThirdBody::new().with_sun(), ThirdBody::new().with_moon(), ThirdBody::sun_and_moon()];
            near!(pull(&model[which], &s, &ctx), tide([sun, moon, sun + moon][which]), 1e-6, "third-body", "{v}, {}", ["Sun", "Moon", "both"][which]);
            asked(&eph, jd)?;
            ensure!(pull(&model[which], &s, &DynamicsContext::empty()).is_err(), "missing", "a third body without ephemeris");
        }
        ensure!(pull(&ThirdBody::new(), &s, &DynamicsContext::empty()).ok() == Some([0.0; 3]), "nobody", "no third bodies pull");
        struct Rock(V);
        impl ThirdBodyProvider for Rock {
            fn name(&self) -> &'static str { "Rock" }
            fn gm(&self) -> GravitationalParameter { GravitationalParameter::new(1000.0) }
            fn position_relative_to_origin(&self, _: &Arc<dyn DynEphemeris + Send + Sync>, _: JulianDate) -> Result<cartesian::Displacement<GCRS, Kilometer>, DynamicsError> { Ok(cartesian::Displacement::new(self.0[0], self.0[1], self.0[2])) }
        }
        let ctx = DynamicsContext::builder().with_ephemeris(Put::new(b, b)).build();
        near!(pull(&ThirdBody::new().with(Box::new(Rock(b))), &s, &ctx), tide(1000.0), 1e-12, "third-body", "{v}, a rock");
        near!(pull(&ThirdBody::new().with(Box::new(Rock(b))).with(Box::new(Rock(b))), &s, &ctx), tide(2000.0), 1e-12, "third-body", "{v}, two rocks");
    }
    cov("third bodies");
    Ok(())
}
fn srp(which: usize) -> Box<DynSiderustForceModel> {
    let (cr, am) = (SrpCoefficient::new(1.5), AreaToMass::new(0.02));
    match which { 0 => Box::new(CannonballSrp::<NoEclipse>::new(cr, am)), 1 => Box::new(CannonballSrp::<Cylindrical>::new(cr, am)), _ => Box::new(CannonballSrp::<Conical>::new(cr, am)) }
}
/// the part of the Sun's disc the Earth leaves free
fn free(rs: f64, re: f64, c: f64) -> f64 {
    if c >= rs + re { return 1.0 }
    if c <= (re - rs).abs() { return if re >= rs { 0.0 } else { 1.0 - (re / rs).powi(2) } }
    let n = 20000;
    let mut hidden = 0.0;
    for k in 0..n {
        let x = -rs + 2.0 * rs * (k as f64 + 0.5) / n as f64;
        let (a, b) = (rs * rs - x * x, re * re - (x - c) * (x - c));
        if b > 0.0 { hidden += 2.0 * a.min(b).max(0.0).sqrt() * 2.0 * rs / n as f64; }
    }
    1.0 - hidden / (PI * rs * rs)
}
fn pressure(r: V, sun: V) -> V {
    let d = plus(r, times(sun, -1.0));
    let l = len(d);
    times(d, 1.5 * 0.02 * 4.560e-6 * (AU / l).powi(2) / 1000.0 / l)
}
fn shade(v: &Value) -> Outcome {
    let r = times(three(&v["r"]), 1e3);
    for (scale, jd) in [(1.0e6, 2_451_545.0), (3.0e7, 2_457_754.625)] {
        let sun = times(three(&v["b"]), scale);
        let eph = Put::new(sun, [0.0; 3]);
        let ctx = DynamicsContext::builder().with_ephemeris(eph.clone()).build();
        let s = state(jd, r, [0.0, 7.0, 0.0]);
        let full = pressure(r, sun);
        near!(pull(&*srp(0), &s, &ctx), full, 1e-6, "srp", "{v}, no shadow");
        match i(v, "behind") {
            0 => cov("too near the edge"),
            1 => { let g = pull(&*srp(1), &s, &ctx); ensure!(g.as_ref().ok().map(|g| len(*g)) == Some(0.0), "srp", "{v}: in the cylinder of shadow, {g:?}"); cov("in the shadow") }
            _ => { near!(pull(&*srp(1), &s, &ctx), full, 1e-6, "srp", "{v}, cylinder"); cov("in the light") }
        }
        asked(&eph, jd)?;
        for w in 0..3 { ensure!(pull(&*srp(w), &s, &DynamicsContext::empty()).is_err(), "missing", "sunlight without ephemeris"); }
    }
    Ok(())
}
fn cone(v: &Value) -> Outcome {
    let r = times(three(&v["r"]), 1e3);
    let (far, j) = (i(v, "far") as f64 * 1e6, i(v, "j") as f64);
    let (rs, re) = ((695_700.0 / far).asin(), (RE / len(r)).asin());
    let theta = (rs + re) * j / 8.0;
    if theta > PI { return Ok(()); }
    let down = times(r, -1.0 / len(r));
    let a = cross(down, if down[0].abs() < 0.7 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] });
    let a = times(a, 1.0 / len(a));
    let b = cross(down, a);
    let side = i(v, "side") as f64 * 1.3;
    let u = plus(times(down, theta.cos()), plus(times(a, theta.sin() * side.cos()), times(b, theta.sin() * side.sin())));
    let sun = plus(r, times(u, far));
    let ctx = DynamicsContext::builder().with_ephemeris(Put::new(sun, [0.0; 3])).build();
    let s = state(2_451_545.0, r, [0.0, 7.0, 0.0]);
    let full = pressure(r, sun);
    let want = free(rs, re, theta);
    let g = match pull(&*srp(2), &s, &ctx) { Ok(g) => g, Err(e) => bail!("srp", "{v}: {e}") };
    // the frame of the Sun is turned by some hundredths of an arc second
    let slack = 1e-3 + if (j - 8.0).abs() < 1.0e-9 || (theta - (re - rs).abs()).abs() < 1e-6 { 1e-2 } else { 0.0 };
    ensure!((dot(g, full) / dot(full, full) - want).abs() < slack && off(times(full, dot(g, full) / dot(full, full)), g) < 1e-6 * len(full), "srp", "{v}: {} of the sunlight (expected {want}), Earth {re}, Sun {rs}, {theta} apart", dot(g, full) / dot(full, full));
    let one = |p: V| cartesian::Displacement::<GCRS, Kilometer>::new(p[0], p[1], p[2]);
    let direct = Conical::eclipse_factor(one(r), one(sun)).value();
    ensure!((direct - want).abs() < 1e-4, "srp", "{v}: eclipse factor {direct}, expected {want}");
    if want == 1.0 { cov("in the light") } else if want == 0.0 { cov("in the umbra") } else if theta <= rs - re { cov("annular") } else { cov("in the penumbra") }
    Ok(())
}
fn drag(v: &Value) -> Outcome {
    let (r, w, air) = (times(three(&v["r"]), 1e3), three(&v["v"]), three(&v["air"]));
    let s = state(2_451_545.0, r, w);
    let (cd, am) = (DragCoefficient::new(2.25), AreaToMass::new(0.015));
    let ctx = DynamicsContext::builder().with_atmosphere(Arc::new(ConstantDensity { rho: KilogramsPerCubicMeter::new(3.0e-12) })).build();
    let push = |u: V| times(u, -0.5 * 2.25 * 0.015 * 3.0e-12 * len(u) * 1000.0);
    near!(pull(&DragForce::with_omega(cd, am, InverseSeconds::new(1.0e-3)), &s, &ctx), push(air), 1e-12, "drag", "{v}");
    let o = 7.292_115_146_706_979e-5;
    near!(pull(&DragForce::new(cd, am), &s, &ctx), push([w[0] + o * r[1], w[1] - o * r[0], w[2]]), 1e-12, "drag", "{v}, of the Earth");
    near!(pull(&ExponentialDrag::new(cd, am), &s, &ctx), push([w[0] + o * r[1], w[1] - o * r[0], w[2]]), 1e-12, "drag", "{v}, of the Earth");
    ensure!(pull(&DragForce::new(cd, am), &s, &DynamicsContext::empty()).is_err(), "missing", "drag without air");
    if len(air) == 0.0 { cov("with the air") } else { cov("through the air") }
    Ok(())
}
fn small(v: &Value) -> Outcome {
    let (p, w) = (three(&v["r"]), three(&v["v"]));
    let n0 = ints(&v["r"])[3] as f64;
    let s = state(2_451_545.0, times(p, 1e3), w);
    let none = DynamicsContext::empty();
    let (v2, rv) = (i(v, "v2") as f64, i(v, "rv") as f64 * 1e3);
    let r = n0 * 1e3;
    let pre = GM / (C * C * r.powi(3));
    near!(pull(&CentralBodyRelativity1Pn::earth(), &s, &none), plus(times(p, 1e3 * pre * (4.0 * GM / r - v2)), times(w, pre * 4.0 * rv)), 1e-11, "relativity", "{v}");
    let (n, t) = (three(&v["n"]), three(&v["t"]));
    let a = [3.0e-9, -4.0e-9, 12.0e-9];
    let emp = EmpiricalAcceleration::rtn(q(a[0]), q(a[1]), q(a[2]));
    let per = EmpiricalPeriodicAcceleration::new(PeriodicHarmonic::OncePerRev, JulianDate::new(2_451_545.0), Seconds::new(5400.0), q(a[0]), q(1.0), q(a[1]), q(1.0), q(a[2]), q(1.0));
    if len(n) == 0.0 {
        ensure!(pull(&emp, &s, &none).is_err() && pull(&per, &s, &none).is_err(), "no-plane", "{v}: an orbit without a plane has no along-track");
        cov("without a plane");
    } else {
        let want = plus(times(p, a[0] / n0), plus(times(t, a[1] / len(t)), times(n, a[2] / len(n))));
        near!(pull(&emp, &s, &none), want, 1e-12, "empirical", "{v}");
        near!(pull(&per, &s, &none), want, 1e-9, "empirical-periodic", "{v} at the reference epoch");
        cov("with a plane");
    }
    Ok(())
}
fn periodic(v: &Value) -> Outcome {
    let (p, w) = (three(&v["r"]), three(&v["v"]));
    let base = 2_457_754.5;
    let s = state(base + i(v, "k") as f64 / 64.0, times(p, 1e3), w);
    let h = if i(v, "h") == 1 { PeriodicHarmonic::OncePerRev } else { PeriodicHarmonic::TwicePerRev };
    let cs = [1.0e-9, 2.0e-9, -3.0e-9, 5.0e-9, 7.0e-9, -11.0e-9];
    let m = EmpiricalPeriodicAcceleration::new(h, JulianDate::new(base), Seconds::new(5400.0), q(cs[0]), q(cs[1]), q(cs[2]), q(cs[3]), q(cs[4]), q(cs[5]));
    let (n, r) = (cross(p, w), p);
    let t = cross(n, r);
    let wave = ints(&v["wave"]);
    let a = |k: usize| cs[k] * wave[0] as f64 + cs[k + 1] * wave[1] as f64;
    let want = plus(times(r, a(0) / len(r)), plus(times(t, a(2) / len(t)), times(n, a(4) / len(n))));
    near!(pull(&m, &s, &DynamicsContext::empty()), want, 1e-7, "empirical-periodic", "{v}");
    let name = if i(v, "h") == 1 { "empirical_1cpr" } else { "empirical_2cpr" };
    let spec = ForceModelSpec::with_params(name, ForceModelParams::EmpiricalPeriodic { harmonic: h, epoch_ref: JulianDate::new(base), period: Seconds::new(5400.0), coeffs: cs.map(q) });
    match ForceModelRegistry::with_builtins().build_one(&spec) { Ok(b) => near!(pull(&*b, &s, &DynamicsContext::empty()), want, 1e-7, "empirical-periodic", "{v}, from the registry"), Err(e) => bail!("registry", "{v}: {e}") }
    cov("waves");
    Ok(())
}
fn high(v: &Value) -> Outcome {
    let (a, l, h) = (ints(&v["a"]), ints(&v["lon"]), i(v, "h") as f64);
    let (sin, cos) = (a[0] as f64 / a[2] as f64, a[1] as f64 / a[2] as f64);
    let f: f64 = 1.0 / 298.257_223_563;
    let e2 = f * (2.0 - f);
    let n = RE / (1.0 - e2 * sin * sin).sqrt();
    let p = (n + h) * cos;
    let r = [p * l[1] as f64 / l[2] as f64, p * l[0] as f64 / l[2] as f64, (n * (1.0 - e2) + h) * sin];
    let got = geodetic_altitude(&Position::<GCRS>::new(r[0], r[1], r[2]), Kilometers::new(RE), Ratios::new(f)).value();
    ensure!((got - h).abs() < 1e-4, "altitude", "{v}: {got} km");
    let air = Arc::new(Air::default());
    let ctx = DynamicsContext::builder().with_atmosphere(air.clone()).build();
    let out = pull(&DragForce::new(DragCoefficient::new(2.0), AreaToMass::new(0.01)), &state(2_451_545.0, r, [0.0, 0.0, 7.5]), &ctx);
    if h < 0.0 { ensure!(out.is_err(), "below", "{v}: under the ground {out:?}"); }
    if h > 0.0 {
        ensure!(out.is_ok(), "drag", "{v}: {out:?}");
        let asked = air.asked.lock().unwrap().clone();
        ensure!(asked.len() == 1 && (asked[0] - h).abs() < 1e-4, "altitude", "{v}: the air was asked for {asked:?} km");
    }
    // one scale height up is a factor e less
    let x = ExponentialAtmosphere::LEO_500KM;
    let rho = |h: f64| x.density(Kilometers::new(h));
    let n = Nrlmsise00LiteApprox;
    if h < 0.0 { ensure!(rho(h).is_err() && n.density(Kilometers::new(h)).is_err(), "below", "{v}"); }
    else {
        let want = 6.967e-13 * (-(h - 500.0) / 63.822f64).exp();
        ensure!((rho(h).unwrap().value() / want - 1.0).abs() < 1e-12, "density", "{h} km: {:?}", rho(h));
        // thinner higher up, and without steps, to the top of the table
        let at = |h: f64| n.density(Kilometers::new(h)).unwrap().value();
        let mut last = at(0.0);
        for k in 1..=4000 { let d = at(k as f64 * 0.25 + h / 1000.0); ensure!(d > 0.0 && d <= last * (1.0 + 1e-12) && d > last * 0.9, "density", "{} km: {d} after {last}", k as f64 * 0.25); last = d; }
    }
    cov("heights");
    Ok(())
}

fn params(name: &str, kind: &str) -> ForceModelParams {
    let e = |h| ForceModelParams::EmpiricalPeriodic { harmonic: h, epoch_ref: JulianDate::new(2_451_545.0), period: Seconds::new(5400.0), coeffs: [q(1e-9), q(2e-9), q(3e-9), q(4e-9), q(5e-9), q(6e-9)] };
    match (kind, name) {
        ("own", "geopotential") => ForceModelParams::Geopotential { degree: 4, order: 3 },
        ("own", "drag") => ForceModelParams::Drag { cd: DragCoefficient::new(2.25), area_to_mass: AreaToMass::new(0.015) },
        ("own", "srp_cannonball") => ForceModelParams::SrpCannonball { cr: SrpCoefficient::new(1.5), area_to_mass: AreaToMass::new(0.02), shadow: ShadowModel::Cylindrical },
        ("own", "empirical_constant") => ForceModelParams::EmpiricalConstant { radial: q(1e-9), transverse: q(-2e-9), normal: q(4e-9) },
        ("own", "empirical_1cpr") | ("half", "empirical_2cpr") => e(PeriodicHarmonic::OncePerRev),
        ("own", "empirical_2cpr") | ("half", "empirical_1cpr") => e(PeriodicHarmonic::TwicePerRev),
        ("other", "empirical_constant") => ForceModelParams::Drag { cd: DragCoefficient::new(2.25), area_to_mass: AreaToMass::new(0.015) },
        ("other", _) => ForceModelParams::Custom("other".into()),
        _ => ForceModelParams::None,
    }
}
fn somewhere() -> OrbitState { state(2_457_754.625, [4000.0, -4000.0, 7000.0], [5.0, 3.0, -1.0]) }
fn world(given: &[&str]) -> DynamicsContext {
    let mut c = DynamicsContext::builder();
    for g in given {
        c = match *g {
            "gravity" => c.with_gravity(Arc::new(Lumpy)),
            "ephemeris" => c.with_ephemeris(Put::new([1.0e8, 9.0e7, 4.0e7], [-2.0e5, 3.0e5, 1.0e5])),
            _ => c.with_atmosphere(Arc::new(ConstantDensity { rho: KilogramsPerCubicMeter::new(3.0e-12) })),
        };
    }
    c.build()
}
/// a term alone, made without registry
fn alone(name: &str) -> Box<DynSiderustForceModel> {
    let w = |h| EmpiricalPeriodicAcceleration::new(h, JulianDate::new(2_451_545.0), Seconds::new(5400.0), q(1e-9), q(2e-9), q(3e-9), q(4e-9), q(5e-9), q(6e-9));
    match name {
        "two_body" => Box::new(TwoBody::new(GM_EARTH)),
        "j2" => Box::new(J2::new(GM_EARTH, R_EARTH, EARTH_J2)),
        "geopotential" => Box::new(Geopotential::new(4, 3)),
        "third_body_sun" => Box::new(ThirdBody::new().with_sun()),
        "third_body_moon" => Box::new(ThirdBody::new().with_moon()),
        "third_body_sun_moon" => Box::new(ThirdBody::new().with_sun().with_moon()),
        "drag" => Box::new(DragForce::new(DragCoefficient::new(2.25), AreaToMass::new(0.015))),
        "srp_cannonball" => Box::new(CannonballSrp::<Cylindrical>::new(SrpCoefficient::new(1.5), AreaToMass::new(0.02))),
        "relativity" => Box::new(CentralBodyRelativity1Pn::earth()),
        "empirical_constant" => Box::new(EmpiricalAcceleration::rtn(q(1e-9), q(-2e-9), q(4e-9))),
        "empirical_1cpr" => Box::new(w(PeriodicHarmonic::OncePerRev)),
        _ => Box::new(w(PeriodicHarmonic::TwicePerRev)),
    }
}
fn sum(v: &Value) -> Outcome {
    let terms: Vec<&str> = arr(v, "terms").iter().map(|x| x.as_str().unwrap()).collect();
    let given: Vec<&str> = arr(v, "given").iter().map(|x| x.as_str().unwrap()).collect();
    let has = |t: &str| terms.contains(&t);
    let wave = (JulianDate::new(2_451_545.0), Seconds::new(5400.0), [q(1e-9), q(2e-9), q(3e-9), q(4e-9), q(5e-9), q(6e-9)]);
    let cfg = ForceModelConfig {
        two_body: has("two_body"), j2: has("j2"), harmonics: has("geopotential").then_some((4, 3)),
        third_body_sun: has("third_body_sun"), third_body_moon: has("third_body_moon"),
        drag: has("drag").then(|| (DragCoefficient::new(2.25), AreaToMass::new(0.015))),
        srp: has("srp_cannonball").then(|| (SrpCoefficient::new(1.5), AreaToMass::new(0.02), ShadowModel::Cylindrical)),
        relativity: has("relativity"), empirical_constant: has("empirical_constant").then(|| (q(1e-9), q(-2e-9), q(4e-9))),
        empirical_1cpr: has("empirical_1cpr").then_some(wave), empirical_2cpr: has("empirical_2cpr").then_some(wave),
    };
    let specs = cfg.to_specs();
    let names: Vec<&str> = specs.iter().map(|s| s.name.as_str()).collect();
    ensure!(names == terms, "terms", "asked for {terms:?}, the registry is asked for {names:?}");
    let model = match ForceModelRegistry::with_builtins().build(&specs) { Ok(m) => m, Err(e) => bail!("build", "{terms:?}: {e}") };
    ensure!(model.len() == terms.len() && model.is_empty() == terms.is_empty(), "terms", "{terms:?}: {} of them", model.len());
    let (ctx, s) = (world(&given), somewhere());
    let got = pull(&model, &s, &ctx);
    if !b(v, "works") { ensure!(got.is_err(), "missing", "{terms:?} with {given:?}: {got:?}"); cov("refused"); return Ok(()); }
    let r = [s.position.x().value(), s.position.y().value(), s.position.z().value()];
    let mut want = [0.0; 3];
    for t in &terms { want = plus(want, match pull(&*alone(t), &s, &ctx) { Ok(a) => a, Err(e) => bail!("alone", "{t}: {e}") }); }
    let got = match got { Ok(g) => g, Err(e) => bail!("missing", "{terms:?} with {given:?}: {e}") };
    ensure!(off(got, want) <= 1e-13 * len(want), "sum", "{terms:?}: {got:?}, the sum is {want:?}");
    cov("sums");
    if has("two_body") && has("geopotential") || has("j2") && has("geopotential") {
        // once: the centre and the flattening are in the field already
        let times_in = (-dot(got, r) / len(r) / (GM / dot(r, r))).round();
        ensure!(times_in == i(v, "central") as f64 && !(has("j2") && i(v, "flat") == 1), "gravity-twice", "{terms:?}: the pull of the centre of the Earth is in it {times_in} times, its flattening {} times", 1 + has("j2") as u8);
    }
    Ok(())
}
struct Mine(&'static str, f64);
impl ForceModelFactory for Mine {
    fn name(&self) -> &'static str { self.0 }
    fn build(&self, _: &ForceModelParams) -> Result<Box<DynSiderustForceModel>, PodDynamicsError> { Ok(Box::new(EmpiricalAcceleration::rtn(q(self.1), q(0.0), q(0.0)))) }
}
fn registry(s: &Value) -> Outcome {
    let log = arr(s, "log");
    let mut reg = if st(&log[0], "op") == "all" { ForceModelRegistry::with_builtins() } else { ForceModelRegistry::new() };
    if st(&log[0], "op") == "all" { let d = ForceModelRegistry::default(); ensure!(d.names() == reg.names() && reg.names().len() == 12, "names", "{:?}", reg.names()); }
    let (ctx, at) = (world(&["gravity", "ephemeris", "atmosphere"]), somewhere());
    let r = [4000.0, -4000.0, 7000.0];
    let mut put = 0usize;
    for (k, e) in log.iter().enumerate().skip(1) {
        if st(e, "op") == "put" {
            let name = if st(e, "name") == "mine" { "mine" } else { "two_body" };
            let before = reg.names().len() + !reg.is_registered(name) as usize;
            reg.register(Box::new(Mine(name, (k + 2) as f64)));
            ensure!(reg.is_registered(name) && reg.names().len() == before && reg.names().contains(&name), "names", "after {name}: {:?}", reg.names());
            put += 1;
            continue;
        }
        let asked: Vec<(&str, &str)> = arr(e, "asked").iter().map(|a| (a[0].as_str().unwrap(), a[1].as_str().unwrap())).collect();
        let specs: Vec<ForceModelSpec> = asked.iter().map(|(n, k)| match params(n, k) { ForceModelParams::None => ForceModelSpec::named(*n), p => ForceModelSpec::with_params(*n, p) }).collect();
        for (n, j) in asked.iter().zip(ints(&e["by"])) { ensure!(reg.is_registered(n.0) == (j > 0), "registered", "{n:?} of {log:?}"); }
        match (reg.build(&specs), st(e, "is")) {
            (Ok(m), "made") => {
                ensure!(m.len() == specs.len(), "terms", "{asked:?}: {}", m.len());
                let mut want = [0.0; 3];
                for (n, j) in asked.iter().zip(ints(&e["by"])) { want = plus(want, if j > 1 { times(r, j as f64 / len(r)) } else { match pull(&*alone(n.0), &at, &ctx) { Ok(a) => a, Err(e) => bail!("alone", "{n:?}: {e}") } }); }
                near!(pull(&m, &at, &ctx), want, 1e-12, "built", "{asked:?} after {put}");
                cov("built");
            }
            (Err(PodDynamicsError::UnknownModel(n)), "unknown") => { ensure!(n == st(e, "who"), "who", "{asked:?}: {n} is said to be unknown"); cov("unknown names") }
            (Err(PodDynamicsError::InvalidParameters { name, .. }), "invalid") => { ensure!(name == st(e, "who"), "who", "{asked:?}: the parameters of {name} are said to be wrong"); cov("wrong parameters") }
            (Ok(_), w) => bail!("built", "{asked:?} of {log:?}: made, expected {w}"),
            (Err(x), w) => bail!("built", "{asked:?} of {log:?}: {x}, expected {w}"),
        }
    }
    Ok(())
}
pub fn replay(s: &Value) -> Outcome {
    let v = &s["v"];
    match st(s, "mode") {
        "gravity" => gravity(v),
        "third" => third(v),
        "shade" => shade(v),
        "cone" => cone(v),
        "drag" => drag(v),
        "small" => small(v),
        "periodic" => periodic(v),
        "high" => high(v),
        "sum" => sum(v),
        _ => registry(s),
    }
}
