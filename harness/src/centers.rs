//! Centres of coordinates: where a thing is from everywhere, against sums of landmarks.
use crate::common::*;
use crate::frames::{generator, mul, off, transpose, values, word, Ctx, Fixed, EPOCHS, M};
use crate::{bail, ensure};
use serde_json::Value;
use siderust::astro::nutation::Iau2006A;
use siderust::astro::orbit::KeplerianOrbit;
use siderust::bodies::solar_system::*;
use siderust::coordinates::cartesian::{Position, Velocity};
use siderust::coordinates::centers::*;
use siderust::coordinates::frames::planetary::MarsFixed;
use siderust::coordinates::frames::*;
use siderust::coordinates::spherical;
use siderust::coordinates::transform::ext::UsingEngine;
use siderust::coordinates::transform::providers::{center_shift_with, frame_rotation, frame_rotation_with, CenterShiftProvider, FrameRotationProvider};
use siderust::coordinates::transform::{to_topocentric_with, AstroContext, PositionAstroExt, Transform, TransformCenter};
use siderust::ephemeris::lagrange::{try_sun_earth_lagrange_barycentric, SunEarthLagrangePoint};
use siderust::ephemeris::lagrange::solver::solve_sun_earth_lagrange;
use siderust::ephemeris::{Ephemeris, Vsop87Ephemeris};
use siderust::qtty::angular::Degrees;
use siderust::qtty::{GM_EARTH, GM_SUN};
use siderust::qtty::length::{AstronomicalUnit, AstronomicalUnits, Kilometer, Meters};
use siderust::qtty::time::Day;
use siderust::qtty::Per;
use siderust::time::JulianDate;
use std::f64::consts::TAU;

type V = [f64; 3];
pub const AU: f64 = 149_597_870.7;
type Au = AstronomicalUnit;
type Ecl = EclipticMeanJ2000;
pub fn xyz<C: ReferenceCenter, F: ReferenceFrame, U: siderust::qtty::LengthUnit>(p: &Position<C, F, U>) -> V { [p.x().value(), p.y().value(), p.z().value()] }
pub fn turn(m: &M, v: V) -> V { std::array::from_fn(|r| (0..3).map(|k| m[r][k] * v[k]).sum()) }
pub fn far(a: V, b: V) -> f64 { (0..3).map(|k| (a[k] - b[k]).powi(2)).sum::<f64>().sqrt() }
fn norm(a: V) -> f64 { far(a, [0.0; 3]) }

/// an ephemeris that is like no other, and moves
#[derive(Clone, Copy, Debug, Default)]
pub struct Mock;
fn drift(jd: JulianDate) -> f64 { (jd.raw().value() - 2_451_545.0) / 65536.0 }
impl Ephemeris for Mock {
    fn sun_barycentric(jd: JulianDate) -> Position<Barycentric, Ecl, Au> { let d = drift(jd); Position::new(0.0625 + d, -0.125, 0.25 - d) }
    fn earth_barycentric(jd: JulianDate) -> Position<Barycentric, Ecl, Au> { let d = drift(jd); Position::new(0.5, 1.25 + d, -0.75 + 2.0 * d) }
    fn earth_heliocentric(jd: JulianDate) -> Position<Heliocentric, Ecl, Au> { let (s, e) = (Self::sun_barycentric(jd), Self::earth_barycentric(jd)); Position::new(e.x() - s.x(), e.y() - s.y(), e.z() - s.z()) }
    fn earth_barycentric_velocity(jd: JulianDate) -> Velocity<Ecl, Per<Au, Day>> { let d = drift(jd); Velocity::new(0.0078125, -0.015625 + d / 1024.0, 0.001953125) }
    fn moon_geocentric(jd: JulianDate) -> Position<Geocentric, Ecl, Kilometer> { let d = drift(jd); Position::new(300_000.0 + 1000.0 * d, -200_000.0, 100_000.0 - 2000.0 * d) }
}

fn orbit(k: usize) -> KeplerianOrbit {
    let d = Degrees::new;
    if k == 1 { KeplerianOrbit::new(AstronomicalUnits::new(1.5), 0.25, d(10.0), d(40.0), d(250.0), d(70.0), JulianDate::new(2_451_545.0)) }
    else { KeplerianOrbit::new(AstronomicalUnits::new(0.7), 0.0, d(120.0), d(310.0), d(15.0), d(200.0), JulianDate::new(2_440_000.5)) }
}
/// a two-body orbit
fn kepler(a: f64, e: f64, deg: [f64; 4], epoch: f64, gm_km: f64, jd: f64) -> V {
    let [inc, node, peri, m0] = deg.map(f64::to_radians);
    let n = (gm_km * 86400f64.powi(2) / (a * AU).powi(3)).sqrt();
    let m = (m0 + n * (jd - epoch)).rem_euclid(TAU);
    let (mut lo, mut hi) = (0.0, TAU);
    for _ in 0..200 { let x: f64 = (lo + hi) / 2.0; if x - e * x.sin() < m { lo = x } else { hi = x } }
    let x = a * (lo.cos() - e);
    let y = a * (1.0 - e * e).sqrt() * lo.sin();
    let back = mul(&mul(&crate::frames::r3(-node), &crate::frames::r1(-inc)), &crate::frames::r3(-peri));
    turn(&back, [x, y, 0.0])
}
/// longitude east, latitude and height of the sites
const SITES: [(f64, f64, f64); 4] = [(-17.875, 28.75, 2396.0), (151.25, -33.875, 0.0), (0.0, 90.0, 100.0), (180.0, 0.0, 5000.0)];
pub fn site(n: usize) -> Geodetic<ECEF> { let s = SITES[n - 1]; Geodetic::<ECEF>::new(Degrees::new(s.0), Degrees::new(s.1), Meters::new(s.2)) }
pub fn ground(n: usize) -> V {
    let (lon, lat, h) = (SITES[n - 1].0.to_radians(), SITES[n - 1].1.to_radians(), SITES[n - 1].2);
    let (a, f) = (6_378_137.0, 1.0 / 298.257_223_563);
    let e2: f64 = f * (2.0 - f);
    let w = a / (1.0 - e2 * lat.sin().powi(2)).sqrt();
    [(w + h) * lat.cos() * lon.cos(), (w + h) * lat.cos() * lon.sin(), (w * (1.0 - e2) + h) * lat.sin()].map(|x| x / AU / 1000.0)
}
pub struct Sky { pub mock: bool, pub backwards: bool, pub ecef: Value }
impl Sky {
    fn ctx(&self, jd: f64) -> Ctx { Ctx { jd, leap: None, eop: self.mock, nut: values::<Iau2006A>(jd) } }
    /// a vector of the ground, among the stars
    pub fn carried(&self, v: V, jd: f64) -> V {
        let c = self.ctx(jd);
        let m = if self.backwards {
            // the word with the turn of the Earth the other way
            self.ecef.as_array().unwrap().iter().fold([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], |m, w| {
                let g = generator(w[0].as_str().unwrap(), &c);
                mul(&if (w[1].as_i64() == Some(1)) != (w[0].as_str() == Some("R")) { g } else { transpose(&g) }, &m)
            })
        } else { word(&self.ecef, &c) };
        turn(&transpose(&m), v)
    }
    pub fn landmark(&self, name: &str, jd: f64) -> V {
        let t = JulianDate::new(jd);
        macro_rules! eph { ($f:ident) => { if self.mock { xyz(&Mock::$f(t)) } else { xyz(&Vsop87Ephemeris::$f(t)) } }; }
        match name {
            "point" => [2.25, -1.75, 0.875],
            "Sun" => eph!(sun_barycentric),
            "Earth" => eph!(earth_barycentric),
            "Moon" => eph!(moon_geocentric).map(|x| x / AU),
            "Mercury" => xyz(&Mercury::vsop87e(t)),
            "Venus" => xyz(&Venus::vsop87e(t)),
            "Mars" => xyz(&Mars::vsop87e(t)),
            "Jupiter" => xyz(&Jupiter::vsop87e(t)),
            "Saturn" => xyz(&Saturn::vsop87e(t)),
            "Uranus" => xyz(&Uranus::vsop87e(t)),
            "Neptune" => xyz(&Neptune::vsop87e(t)),
            "Pluto" => kepler(39.48168677, 0.24880766, [17.14175, 110.30347, 113.76329, 14.86205], 2_451_545.0, 1.327_124_400_18e11, jd),
            "L1" => xyz(&try_sun_earth_lagrange_barycentric(SunEarthLagrangePoint::L1, t).unwrap()),
            "L2" => xyz(&try_sun_earth_lagrange_barycentric(SunEarthLagrangePoint::L2, t).unwrap()),
            "L3" => xyz(&try_sun_earth_lagrange_barycentric(SunEarthLagrangePoint::L3, t).unwrap()),
            "L4" => xyz(&try_sun_earth_lagrange_barycentric(SunEarthLagrangePoint::L4, t).unwrap()),
            "L5" => xyz(&try_sun_earth_lagrange_barycentric(SunEarthLagrangePoint::L5, t).unwrap()),
            "orbit1" => kepler(1.5, 0.25, [10.0, 40.0, 250.0, 70.0], 2_451_545.0, 1.327_124_400_18e11, jd),
            "orbit2" => kepler(0.7, 0.0, [120.0, 310.0, 15.0, 200.0], 2_440_000.5, 1.327_124_400_18e11, jd),
            _ => {
                self.carried(ground(name[4..].parse().unwrap()), jd)
            }
        }
    }
    fn sum(&self, terms: &Value) -> V {
        terms.as_array().unwrap().iter().fold([0.0; 3], |v, t| {
            let (l, n) = (self.landmark(t[0].as_str().unwrap(), EPOCHS[t[1].as_i64().unwrap() as usize - 1].0), t[2].as_i64().unwrap() as f64);
            std::array::from_fn(|k| v[k] + n * l[k])
        })
    }
}

type C0 = AstroContext<Mock, Fixed>;
fn put<C: ReferenceCenter<Params = ()>, F: ReferenceFrame>(v: V) -> Position<C, F, Au> { Position::new(v[0], v[1], v[2]) }
/// every way from one centre to another; the first three heed the context
fn shifted<C: ReferenceCenter<Params = ()>, D: ReferenceCenter<Params = ()>, F: ReferenceFrame>(v: V, jd: f64, mock: bool, all: bool) -> Vec<(&'static str, V)>
where (): CenterShiftProvider<C, D, F>, (): CenterShiftProvider<D, C, F> {
    let t = JulianDate::new(jd);
    let p = put::<C, F>(v);
    if !mock {
        let q: Position<D, F, Au> = p.to_center(t);
        let mut ways = vec![("to_center", xyz(&q))];
        if all { ways.push(("to", xyz(&p.to::<D, F>(&t)))); }
        return ways;
    }
    let ctx = C0::default();
    let q: Position<D, F, Au> = p.to_center_with((), t, &ctx);
    let mut ways = vec![("to_center_with", xyz(&q))];
    if all {
        ways.push(("engine", xyz(&p.using(&ctx).to_center::<D>(&t))));
        ways.push(("to_with", xyz(&p.to_with::<D, F, _>(&t, &ctx))));
        let s = center_shift_with::<C, D, F, _>(t, &ctx);
        ways.push(("center_shift_with", std::array::from_fn(|k| v[k] + s[k].value())));
        let km: Position<D, F, Kilometer> = p.to_unit::<Kilometer>().to_center_with((), t, &ctx);
        ways.push(("in kilometres", xyz(&km).map(|x| x / AU)));
    }
    ways
}
macro_rules! table {
    ($($a:literal $ta:ty : $($b:literal $tb:ty),+ ;)+ same $($s:literal $ts:ty),+) => {
        fn go<F: ReferenceFrame>(c: &str, d: &str, v: V, jd: f64, mock: bool, all: bool) -> Option<Vec<(&'static str, V)>> where (): FrameRotationProvider<Ecl, F> {
            Some(match (c, d) {
                $($(
                    ($a, $b) => shifted::<$ta, $tb, F>(v, jd, mock, all),
                    ($b, $a) => shifted::<$tb, $ta, F>(v, jd, mock, all),
                )+)+
                $(($s, $s) => shifted::<$ts, $ts, F>(v, jd, mock, all),)+
                _ => return None,
            })
        }
        /// centre and frame at once, with no context
        fn transformed(c: &str, d: &str, v: V, jd: f64) -> Option<Vec<(&'static str, V)>> {
            fn one<C: ReferenceCenter<Params = ()>, D: ReferenceCenter<Params = ()>>(v: V, jd: f64) -> Vec<(&'static str, V)>
            where (): CenterShiftProvider<C, D, EquatorialMeanJ2000> {
                let p = put::<C, Ecl>(v);
                let q: Position<D, EquatorialMeanJ2000, Au> = p.transform(JulianDate::new(jd));
                let s: spherical::Position<D, EquatorialMeanJ2000, Au> = spherical::Position::from_cartesian(&p).transform(JulianDate::new(jd));
                vec![("transform", xyz(&q)), ("spherical transform", xyz(&s.to_cartesian()))]
            }
            Some(match (c, d) {
                $($(
                    ($a, $b) => one::<$ta, $tb>(v, jd),
                    ($b, $a) => one::<$tb, $ta>(v, jd),
                )+)+
                $(($s, $s) => one::<$ts, $ts>(v, jd),)+
                _ => return None,
            })
        }
    };
}
table! {
    "Barycentric" Barycentric: "Heliocentric" Heliocentric, "Geocentric" Geocentric, "Mercury" Mercurycentric, "Venus" Venuscentric, "Mars" Marscentric, "Jupiter" Jovicentric, "Saturn" Saturnocentric,
        "Uranus" Uranocentric, "Neptune" Neptunocentric, "Pluto" Plutocentric, "Moon" Selenocentric, "L1" SunEarthL1, "L2" SunEarthL2, "L3" SunEarthL3, "L4" SunEarthL4, "L5" SunEarthL5;
    "Heliocentric" Heliocentric: "Geocentric" Geocentric, "Mercury" Mercurycentric, "Venus" Venuscentric, "Mars" Marscentric, "Jupiter" Jovicentric, "Saturn" Saturnocentric,
        "Uranus" Uranocentric, "Neptune" Neptunocentric, "Pluto" Plutocentric, "Moon" Selenocentric, "L1" SunEarthL1, "L2" SunEarthL2, "L3" SunEarthL3, "L4" SunEarthL4, "L5" SunEarthL5;
    "Geocentric" Geocentric: "Mercury" Mercurycentric, "Venus" Venuscentric, "Mars" Marscentric, "Jupiter" Jovicentric, "Saturn" Saturnocentric,
        "Uranus" Uranocentric, "Neptune" Neptunocentric, "Pluto" Plutocentric, "Moon" Selenocentric, "L1" SunEarthL1, "L2" SunEarthL2, "L3" SunEarthL3, "L4" SunEarthL4, "L5" SunEarthL5;
    same "Barycentric" Barycentric, "Heliocentric" Heliocentric, "Geocentric" Geocentric, "Mercury" Mercurycentric, "Venus" Venuscentric, "Mars" Marscentric, "Jupiter" Jovicentric, "Saturn" Saturnocentric,
        "Uranus" Uranocentric, "Neptune" Neptunocentric, "Pluto" Plutocentric, "Moon" Selenocentric, "L1" SunEarthL1, "L2" SunEarthL2, "L3" SunEarthL3, "L4" SunEarthL4, "L5" SunEarthL5
}
fn center(c: &str, d: &str, f: &str, v: V, jd: f64, mock: bool, all: bool) -> Result<Vec<(&'static str, V)>, Mismatch> {
    match f {
        "EclipticMeanJ2000" => go::<Ecl>(c, d, v, jd, mock, all),
        "EquatorialMeanJ2000" => go::<EquatorialMeanJ2000>(c, d, v, jd, mock, all),
        "ICRS" => go::<ICRS>(c, d, v, jd, mock, all),
        "Galactic" => go::<Galactic>(c, d, v, jd, mock, all),
        "ECEF" => go::<ECEF>(c, d, v, jd, mock, all),
        _ => go::<MarsFixed>(c, d, v, jd, mock, all),
    }.ok_or_else(|| Mismatch { key: "table".into(), msg: format!("no way from {c} to {d} in the harness") })
}
fn axes(f: &str, jd: f64, mock: bool) -> M {
    let t = JulianDate::new(jd);
    macro_rules! m { ($t:ty) => { if mock { *frame_rotation_with::<Ecl, $t, _>(t, &C0::default()).as_matrix() } else { *frame_rotation::<Ecl, $t>(t, &AstroContext::default()).as_matrix() } }; }
    match f { "EclipticMeanJ2000" => m!(Ecl), "EquatorialMeanJ2000" => m!(EquatorialMeanJ2000), "ICRS" => m!(ICRS), "Galactic" => m!(Galactic), "ECEF" => m!(ECEF), _ => m!(MarsFixed) }
}
/// a change of frame about one centre
fn reframe(f: &str, g: &str, v: V, jd: f64, mock: bool) -> V {
    let t = JulianDate::new(jd);
    fn one<F: ReferenceFrame, G: ReferenceFrame>(v: V, t: JulianDate, mock: bool) -> V where (): FrameRotationProvider<F, G> {
        let p = put::<Heliocentric, F>(v);
        if mock { xyz(&p.to_frame_with::<G, _>(&t, &C0::default())) } else { xyz(&PositionAstroExt::to_frame::<G>(&p, &t)) }
    }
    macro_rules! to { ($t:ty) => { match g { "EclipticMeanJ2000" => one::<$t, Ecl>(v, t, mock), "EquatorialMeanJ2000" => one::<$t, EquatorialMeanJ2000>(v, t, mock), "ICRS" => one::<$t, ICRS>(v, t, mock),
        "Galactic" => one::<$t, Galactic>(v, t, mock), _ => one::<$t, ECEF>(v, t, mock) } }; }
    match (f, g) {
        ("EclipticMeanJ2000", "Mars") => one::<Ecl, MarsFixed>(v, t, mock),
        ("ICRS", "Mars") => one::<ICRS, MarsFixed>(v, t, mock),
        ("Mars", "EclipticMeanJ2000") => one::<MarsFixed, Ecl>(v, t, mock),
        ("Mars", "ICRS") => one::<MarsFixed, ICRS>(v, t, mock),
        // pairs that are not offered directly go by the ICRS
        (_, "Mars") => { let w = reframe(f, "ICRS", v, jd, mock); one::<ICRS, MarsFixed>(w, t, mock) }
        ("Mars", _) => { let w = one::<MarsFixed, ICRS>(v, t, mock); reframe("ICRS", g, w, jd, mock) }
        ("EclipticMeanJ2000", _) => to!(Ecl),
        ("EquatorialMeanJ2000", _) => to!(EquatorialMeanJ2000),
        ("ICRS", _) => to!(ICRS),
        ("Galactic", _) => to!(Galactic),
        _ => to!(ECEF),
    }
}
fn body(name: &str) -> BodycentricParams {
    let w: Vec<&str> = name.split(' ').collect();
    let about = match w[1] { "Barycentric" => OrbitReferenceCenter::Barycentric, "Heliocentric" => OrbitReferenceCenter::Heliocentric, _ => OrbitReferenceCenter::Geocentric };
    BodycentricParams::new(orbit(w[2].parse().unwrap()), about, GM_SUN)
}
/// round a body or a site, in a frame that needs no time; where it is, and how it stands to the same and to another body or site
fn around<F: MutableFrame + ReferenceFrame>(c: &str, d: &str, v: V, jd: f64, mock: bool) -> Result<Vec<(&'static str, V)>, Mismatch>
where Position<Geocentric, F, Au>: TransformCenter<Bodycentric, F, Au> + TransformCenter<Topocentric, F, Au>, Position<Heliocentric, F, Au>: TransformCenter<Bodycentric, F, Au>, Position<Barycentric, F, Au>: TransformCenter<Bodycentric, F, Au>,
      Position<Bodycentric, F, Au>: TransformCenter<Geocentric, F, Au>, Position<Topocentric, F, Au>: TransformCenter<Geocentric, F, Au>,
      Position<Geocentric, EquatorialMeanJ2000, Au>: siderust::coordinates::transform::TransformFrame<Position<Geocentric, F, Au>> {
    let (t, ctx) = (JulianDate::new(jd), C0::default());
    macro_rules! way { ($p:expr, $d:ty, $q:expr) => {{ let r: Position<$d, F, Au> = if mock { $p.to_center_with($q, t, &ctx) } else { $p.to_center(($q, t)) }; r }}; }
    fn pairs<C: AffineCenter, F: ReferenceFrame>(p: Position<C, F, Au>, other: C::Params, same: C::Params) -> Outcome where C::Params: Clone + PartialEq {
        let v = xyz(&p);
        let a = Position::<C, F, Au>::from_array(same, [v[0] + 1.0, v[1], v[2]].map(siderust::qtty::Quantity::new));
        let b = Position::<C, F, Au>::from_array(other, [v[0] + 1.0, v[1], v[2]].map(siderust::qtty::Quantity::new));
        ensure!(a.checked_sub(&p).is_ok_and(|d| (d.x().value() - 1.0).abs() < 1e-12) && p.try_distance_to(&a).is_ok_and(|d| (d.value() - 1.0).abs() < 1e-12), "mixed", "positions about one {} do not subtract", C::center_name());
        ensure!(b.checked_sub(&p).is_err() && p.try_distance_to(&b).is_err(), "mixed", "positions about different {} subtract", C::center_name());
        Ok(())
    }
    if let Some(n) = d.strip_prefix("site") {
        let n: usize = n.parse().unwrap();
        let p = put::<Geocentric, F>(v);
        let q = way!(p, Topocentric, site(n));
        pairs(q, site(n % 4 + 1), site(n))?;
        let mut ways = vec![("to_center", xyz(&q))];
        if mock { ways.push(("to_topocentric_with", xyz(&to_topocentric_with(&p, site(n), t, &ctx)))); }
        return Ok(ways);
    }
    if let Some(n) = c.strip_prefix("site") {
        let p = Position::<Topocentric, F, Au>::from_array(site(n.parse().unwrap()), v.map(siderust::qtty::Quantity::new));
        let q: Position<Geocentric, F, Au> = if mock { p.to_center_with((), t, &ctx) } else { p.to_center(t) };
        return Ok(vec![("to_center", xyz(&q))]);
    }
    if c.starts_with("body") {
        let p = Position::<Bodycentric, F, Au>::from_array(body(c), v.map(siderust::qtty::Quantity::new));
        let q: Position<Geocentric, F, Au> = if mock { p.to_center_with((), t, &ctx) } else { p.to_center(t) };
        return Ok(vec![("to_center", xyz(&q))]);
    }
    let w: Vec<&str> = d.split(' ').collect();
    let other = body(&format!("{} {} {}", w[0], w[1], if w[2] == "1" { "2" } else { "1" }));
    let q = match c {
        "Barycentric" => way!(put::<Barycentric, F>(v), Bodycentric, body(d)),
        "Heliocentric" => way!(put::<Heliocentric, F>(v), Bodycentric, body(d)),
        _ => way!(put::<Geocentric, F>(v), Bodycentric, body(d)),
    };
    pairs(q, other, body(d))?;
    Ok(vec![("to_center", xyz(&q))])
}
fn special(c: &str, d: &str, f: &str, v: V, jd: f64, mock: bool) -> Result<Vec<(&'static str, V)>, Mismatch> {
    match f {
        "EclipticMeanJ2000" => around::<Ecl>(c, d, v, jd, mock),
        "EquatorialMeanJ2000" => around::<EquatorialMeanJ2000>(c, d, v, jd, mock),
        _ => around::<ICRS>(c, d, v, jd, mock),
    }
}

/// the landmarks themselves are where such bodies are
fn placed(name: &str, jd: f64) -> Outcome {
    let sky = Sky { mock: false, backwards: false, ecef: Value::Null };
    let t = (jd - 2_451_545.0) / 36525.0;
    let at = |n: &str| -> V { let (a, s) = (sky.landmark(n, jd), sky.landmark("Sun", jd)); std::array::from_fn(|k| a[k] - s[k]) };
    // mean distance, eccentricity, mean longitude and its rate a century
    let (a, e, l, rate) = match name {
        "Mercury" => (0.38709893, 0.20563069, 252.25084, 149472.67411),
        "Venus" => (0.72333199, 0.00677323, 181.97973, 58517.81539),
        "Earth" => (1.00000011, 0.01671022, 100.46435, 35999.37245),
        "Mars" => (1.52366231, 0.09341233, 355.45332, 19140.30268),
        "Jupiter" => (5.20336301, 0.04839266, 34.40438, 3034.74613),
        "Saturn" => (9.53707032, 0.0541506, 49.94432, 1222.49362),
        "Uranus" => (19.19126393, 0.04716771, 313.23218, 428.48203),
        "Neptune" => (30.06896348, 0.00858587, 304.88003, 218.45945),
        "Pluto" => (39.48168677, 0.24880766, 238.92881, 145.20775),
        "Sun" => {
            let s = norm(sky.landmark("Sun", jd));
            ensure!(s < 0.0105, "landmark", "the Sun is {s} AU from the barycentre at {jd}");
            return Ok(());
        }
        "Moon" => {
            let r = norm(sky.landmark("Moon", jd)) * AU;
            ensure!((356_000.0..407_000.0).contains(&r), "landmark", "the Moon is at {r} km at {jd}");
            return Ok(());
        }
        p => {
            let (v, earth) = (at(p), at("Earth"));
            let (r, re) = (norm(v), norm(earth));
            let ahead = ((earth[0] * v[1] - earth[1] * v[0]) / (r * re)).atan2((earth[0] * v[0] + earth[1] * v[1]) / (r * re)).to_degrees();
            let (lo, hi, angle) = match p { "L1" => (0.985, 0.995, 0.0), "L2" => (1.005, 1.015, 0.0), "L3" => (0.97, 1.04, 180.0), "L4" => (0.98, 1.02, 60.0), _ => (0.98, 1.02, -60.0) };
            let turn = |a: f64| (a - angle + 540.0).rem_euclid(360.0) - 180.0;
            // as the equations of motion have it
            let point = match p { "L1" => SunEarthLagrangePoint::L1, "L2" => SunEarthLagrangePoint::L2, "L3" => SunEarthLagrangePoint::L3, "L4" => SunEarthLagrangePoint::L4, _ => SunEarthLagrangePoint::L5 };
            let solved = solve_sun_earth_lagrange::<Vsop87Ephemeris>(point, JulianDate::new(jd)).map_err(|e| Mismatch { key: "solver".into(), msg: format!("{p} at {jd}: {e}") })?;
            let sun = sky.landmark("Sun", jd);
            let w: V = { let q = xyz(&solved.position); std::array::from_fn(|k| q[k] / AU - sun[k]) };
            let angle_of = |w: V| (earth[0] * w[1] - earth[1] * w[0]).atan2(earth[0] * w[0] + earth[1] * w[1]).to_degrees();
            ensure!((lo..hi).contains(&(norm(w) / re)) && turn(angle_of(w)).abs() < 2.5 && w[2].abs() < 1e-3, "solver", "{p} at {jd} is solved to be {} from the Sun, the Earth {re}, and {} degrees ahead", norm(w), angle_of(w));
            let off = turn(ahead);
            if (0.95..1.05).contains(&(r / re)) && (off + 100.46).abs() < 3.0 { return mm("lagrange-archive", format!("{p} at {jd} is {r} from the Sun, the Earth {re}, and {ahead} degrees ahead")); }
            ensure!((lo..hi).contains(&(r / re)) && off.abs() < 2.5, "landmark", "{p} at {jd} is {r} from the Sun, the Earth {re}, and {ahead} degrees ahead");
            return Ok(());
        }
    };
    let v = at(name);
    let r = norm(v);
    let lon = v[1].atan2(v[0]).to_degrees();
    let d: f64 = (lon - l - rate * t + 540.0).rem_euclid(360.0) - 180.0;
    ensure!(r > a * (1.0 - e) * 0.97 && r < a * (1.0 + e) * 1.03 && d.abs() < (2.0 * e + 1.25 * e * e).to_degrees() * 1.05 + 3.5, "landmark", "{name} at {jd} is {r} AU from the Sun at longitude {lon}, {d} off the mean");
    let told = match name {
        "Mercury" => xyz(&Mercury::vsop87a(JulianDate::new(jd))), "Venus" => xyz(&Venus::vsop87a(JulianDate::new(jd))), "Earth" => xyz(&Earth::vsop87a(JulianDate::new(jd))), "Mars" => xyz(&Mars::vsop87a(JulianDate::new(jd))),
        "Jupiter" => xyz(&Jupiter::vsop87a(JulianDate::new(jd))), "Saturn" => xyz(&Saturn::vsop87a(JulianDate::new(jd))), "Uranus" => xyz(&Uranus::vsop87a(JulianDate::new(jd))), "Neptune" => xyz(&Neptune::vsop87a(JulianDate::new(jd))), _ => v,
    };
    ensure!(far(told, v) < 2e-6 * a, "landmark", "{name} at {jd} is at {told:?} from the Sun, by way of the barycentre at {v:?}");
    Ok(())
}

pub fn replay(s: &Value) -> Outcome {
    let mode = st(s, "mode");
    let told = [walk(s, mode, true), walk(s, mode, false)];
    for r in &told { if r.as_ref().is_err_and(|m| m.key != "earth-turns-backwards") { return told.into_iter().find(|r| r.as_ref().is_err_and(|m| m.key != "earth-turns-backwards")).unwrap(); } }
    for r in told { r?; }
    if mode == "pair" {
        let (jd, step) = (EPOCHS[i(s, "epoch") as usize - 1].0, &arr(s, "steps")[0]);
        for c in [st(s, "from"), st(step, "center")] { match c { "Barycentric" => (), "Heliocentric" => placed("Sun", jd)?, "Geocentric" => placed("Earth", jd)?, _ => placed(c, jd)? } }
        let body = orbit(1);
        ensure!(BodycentricParams::heliocentric(body).mu == GM_SUN && BodycentricParams::barycentric(body).mu == GM_SUN && BodycentricParams::geocentric(body).mu == GM_EARTH, "mu", "the mass orbits are about");
        ensure!(BodycentricParams::geocentric(body).orbit_center == OrbitReferenceCenter::Geocentric && BodycentricParams::barycentric(body).orbit_center == OrbitReferenceCenter::Barycentric, "mu", "what orbits are about");
    }
    Ok(())
}
fn walk(s: &Value, mode: &str, mock: bool) -> Outcome {
    let sky = Sky { mock, backwards: false, ecef: s["words"]["ECEF"].clone() };
    let wrong = Sky { mock, backwards: true, ecef: s["words"]["ECEF"].clone() };
    let jd0 = EPOCHS[i(s, "epoch") as usize - 1].0;
    let (mut c, mut f) = (st(s, "from").to_string(), st(s, "frame").to_string());
    let mut v = turn(&axes(&f, jd0, mock), sky.sum(&s["at"]));
    let mut known = Ok(());
    let mut told = vec![format!("{c} {f}")];
    for step in arr(s, "steps") {
        let (d, g, jd) = (st(step, "center"), st(step, "frame"), EPOCHS[i(step, "epoch") as usize - 1].0);
        let ways = if st(step, "do") == "frame" { vec![("frame", reframe(&f, g, v, jd, mock))] }
            else if mode == "body" || mode == "site" { special(&c, d, g, v, jd, mock)? }
            else { center(&c, d, g, v, jd, mock, mode == "pair")? };
        told.push(format!("{d} {g} at {jd}"));
        // the axes at the epoch of the walk; those that are walked at several epochs do not turn
        let m = axes(g, jd0, mock);
        let drift = off(&m, &word(&s["words"][g], &sky.ctx(jd0)));
        ensure!(!mock || drift < 6e-8, "frame", "the axes of {g} at {jd0}: off by {drift:e}");
        let want = turn(&m, sky.sum(&step["at"]));
        let site = mode == "site";
        let lim = if site { 0.3 / AU / 1e0 * 1e-3 } else if mode == "body" || told.iter().any(|w| w.starts_with("Pluto")) { 2e-8 } else { 2e-11 };
        for (n, got) in &ways {
            if far(*got, want) < lim { continue; }
            if site && far(*got, turn(&m, wrong.sum(&step["at"]))) < lim {
                known = mm("earth-turns-backwards", format!("{told:?} by {n}: {got:?}, expected {want:?}"));
                continue;
            }
            bail!("center", "{told:?} by {n}{}: {got:?}, expected {want:?}, off by {:e} AU", if mock { "" } else { " with no context" }, far(*got, want));
        }
        cov(if site { "sites" } else { "steps" });
        if mode == "pair" && !mock && f == "EclipticMeanJ2000" {
            let m = axes("EquatorialMeanJ2000", jd0, false);
            let want = turn(&m, sky.sum(&step["at"]));
            for (n, got) in transformed(&c, d, v, jd).unwrap_or_default() { ensure!(far(got, want) < if n == "transform" { lim } else { 1e-6 }, "transform", "{told:?} by {n}: {got:?}, expected {want:?}"); cov("transforms"); }
        }
        (v, c, f) = (ways[0].1, d.to_string(), g.to_string());
    }
    known
}
