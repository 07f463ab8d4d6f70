//! Reference frames: every rotation on offer against the product of the turns that define the frames.
use crate::common::*;
use crate::{bail, ensure};
use serde_json::Value;
use siderust::astro::earth_rotation::jd_ut1_from_tt;
use siderust::astro::eop::{EopProvider, EopValues, NullEop};
use siderust::astro::nutation::{Iau2000A, Iau2000B, Iau2006, Iau2006A, NutationModel};
use siderust::coordinates::cartesian::{Direction, Position, Velocity};
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::planetary::*;
use siderust::coordinates::frames::*;
use siderust::coordinates::spherical;
use siderust::coordinates::transform::context::TransformContext;
use siderust::coordinates::transform::ext::{SphericalDirectionAstroExt, UsingEngine};
use siderust::coordinates::transform::providers::{frame_rotation, frame_rotation_with};
use siderust::coordinates::transform::{AstroContext, DirectionAstroExt, PositionAstroExt, TransformFrame, VectorAstroExt};
use siderust::ephemeris::Vsop87Ephemeris;
use siderust::qtty::angular::{Arcseconds, MilliArcseconds};
use siderust::qtty::length::Kilometer;
use siderust::qtty::time::{Second, Seconds};
use siderust::qtty::Per;
use siderust::time::JulianDate;
use std::f64::consts::TAU;

pub type M = [[f64; 3]; 3];
pub const AS: f64 = TAU / 1_296_000.0;
pub fn mul(a: &M, b: &M) -> M { std::array::from_fn(|i| std::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum())) }
pub fn transpose(a: &M) -> M { std::array::from_fn(|i| std::array::from_fn(|j| a[j][i])) }
const ONE: M = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
// turns of the axes
pub fn r1(a: f64) -> M { let (s, c) = a.sin_cos(); [[1.0, 0.0, 0.0], [0.0, c, s], [0.0, -s, c]] }
pub fn r2(a: f64) -> M { let (s, c) = a.sin_cos(); [[c, 0.0, -s], [0.0, 1.0, 0.0], [s, 0.0, c]] }
pub fn r3(a: f64) -> M { let (s, c) = a.sin_cos(); [[c, s, 0.0], [-s, c, 0.0], [0.0, 0.0, 1.0]] }
fn product(ms: &[M]) -> M { ms.iter().fold(ONE, |a, m| mul(&a, m)) }
pub fn off(a: &M, b: &M) -> f64 { (0..9).map(|k| (a[k / 3][k % 3] - b[k / 3][k % 3]).abs()).fold(0.0, f64::max) }
#[macro_export]
macro_rules! matrix { ($r:expr) => { *$r.as_matrix() }; }

/// Earth orientation given by fiat, the same at all times
#[derive(Clone, Debug)]
pub struct Fixed;
pub const DUT1: f64 = -0.3125;
pub const XP: f64 = 0.25;
pub const YP: f64 = -0.375;
pub const DX: f64 = 32.0;
pub const DY: f64 = -48.0;
impl EopProvider for Fixed {
    fn eop_at(&self, _: JulianDate) -> EopValues {
        EopValues { dut1: Seconds::new(DUT1), xp: Arcseconds::new(XP), yp: Arcseconds::new(YP), dx: MilliArcseconds::new(DX), dy: MilliArcseconds::new(DY), lod: Seconds::new(0.0) }
    }
}
impl Default for Fixed { fn default() -> Self { Fixed } }
/// terrestrial time of the epochs and TAI-UTC then, where UTC was counted in whole seconds
pub const EPOCHS: [(f64, Option<f64>); 5] = [(2415100.25, None), (2444300.75, Some(19.0)), (2451700.25, Some(32.0)), (2461100.625, Some(37.0)), (2463000.5, None)];

fn table(msg: String) -> Mismatch { Mismatch { key: "table".to_string(), msg } }
pub struct Ctx { pub jd: f64, pub leap: Option<f64>, pub eop: bool, pub nut: (f64, f64, f64) }
/// the elementary turns
pub fn generator(g: &str, c: &Ctx) -> M {
    let (t, d) = ((c.jd - 2451545.0) / 36525.0, c.jd - 2451545.0);
    let (dpsi, deps, eps) = c.nut;
    let (xp, yp, dx, dy) = if c.eop { (XP * AS, YP * AS, DX * AS / 1e3, DY * AS / 1e3) } else { (0.0, 0.0, 0.0, 0.0) };
    let obliquity = (84381.406 - 46.836769 * t - 0.0001831 * t * t + 0.0020034 * t * t * t) * AS;
    assert!((eps - obliquity).abs() < 1e-9, "mean obliquity is {eps}");
    let mas = AS / 1e3;
    match g {
        "B" => product(&[r1(6.8192 * mas), r2(-16.617 * mas), r3(-14.6 * mas)]),
        "O" => r1(84381.406 * AS),
        "P" => {
            let zeta = (2.650545 + 2306.083227 * t + 0.2988499 * t * t + 0.01801828 * t * t * t) * AS;
            let z = (-2.650545 + 2306.077181 * t + 1.0927348 * t * t + 0.01826837 * t * t * t) * AS;
            let theta = (2004.191903 * t - 0.4294934 * t * t - 0.04182264 * t * t * t) * AS;
            product(&[r3(-z), r2(theta), r3(-zeta)])
        }
        "N" => product(&[r1(-(eps + deps + dy)), r3(-(dpsi + dx / eps.sin())), r1(eps)]),
        "E" => r3(dpsi * eps.cos()),
        "C" => {
            let m = product(&[generator("N", c), generator("P", c), generator("B", c)]);
            let (x, y) = (m[2][0], m[2][1]);
            let s = -x * y / 2.0 + (94e-6 + 3808.65e-6 * t - 122.68e-6 * t * t - 72574.11e-6 * t * t * t) * AS;
            let (e, d) = (y.atan2(x), (x * x + y * y).sqrt().asin());
            product(&[r3(-(e + s)), r2(d), r3(e)])
        }
        "R" => {
            let dut1 = if c.eop { DUT1 } else { 0.0 };
            // without Earth orientation the difference of UT1 from TT is the library's estimate, which is near what it was
            let estimate = jd_ut1_from_tt(JulianDate::new(c.jd)).raw().value();
            if let Some(leap) = c.leap { assert!((estimate - c.jd + (32.184 + leap) / 86400.0).abs() < 0.9 / 86400.0, "estimated UT1 at {} is {estimate}", c.jd); }
            let ut1 = match c.leap {
                Some(leap) if c.eop => c.jd - (32.184 + leap) / 86400.0 + dut1 / 86400.0,
                _ => estimate + dut1 / 86400.0,
            };
            let u = ut1 - 2451545.0;
            r3((u.fract() + 0.779057273264 + 0.00273781191135448 * u).rem_euclid(1.0) * TAU)
        }
        "W" => product(&[r1(-yp), r2(-xp), r3(-47e-6 * t * AS)]),
        "L" => r1(eps),
        "T" => r1(eps + deps + dy),
        "G" => {
            // the galactic pole, and where the celestial pole is in galactic longitude
            let (ra, dec, l) = (192.85948f64.to_radians(), 27.12825f64.to_radians(), 122.93192f64.to_radians());
            product(&[r3(TAU / 2.0 - l), r2(TAU / 4.0 - dec), r3(ra)])
        }
        "K" => {
            // B1950 to J2000 by Newcomb's precession and the correction of the equinox
            let m = [[0.9999256795, -0.0111814832, -0.0048590038], [0.0111814832, 0.9999374849, -0.0000271626], [0.0048590038, -0.0000271703, 0.9999881946]];
            transpose(&m)
        }
        body => {
            // right ascension and declination of the pole, with rates a century, and the prime meridian, with rate a day
            let (a0, a1, d0, d1, w0, w1) = match body {
                "Mercury" => (281.0103, -0.0328, 61.4155, -0.0049, 329.5988, 6.1385108),
                "Venus" => (272.76, 0.0, 67.16, 0.0, 160.20, -1.4813688),
                "Mars" => (317.269, -0.10927, 54.432, -0.05827, 176.049, 350.891982443),
                "Moon" => (269.9949, 0.0031, 66.5392, 0.0130, 38.3213, 13.17635815),
                "Jupiter" => (268.057, -0.006, 64.495, 0.002, 284.95, 870.5360000),
                "Saturn" => (40.589, -0.036, 83.537, -0.004, 38.90, 810.7939024),
                "Uranus" => (257.311, 0.0, -15.175, 0.0, 203.81, -501.1600928),
                "Neptune" => (299.36, 0.0, 43.46, 0.0, 249.978, 541.1397757),
                _ => (132.993, 0.0, -6.163, 0.0, 302.695, 56.3625225),
            };
            let r = |x: f64| x.to_radians();
            product(&[r3(r((w0 + w1 * d).rem_euclid(360.0))), r1(r(90.0 - d0 - d1 * t)), r3(r(90.0 + a0 + a1 * t))])
        }
    }
}
pub fn word(turn: &Value, c: &Ctx) -> M {
    turn.as_array().unwrap().iter().fold(ONE, |m, w| {
        let g = generator(w[0].as_str().unwrap(), c);
        mul(&if w[1].as_i64() == Some(1) { g } else { transpose(&g) }, &m)
    })
}

/// what carries the rotation
fn carriers<F: ReferenceFrame, G: ReferenceFrame, C: TransformContext>(jd: JulianDate, ctx: &C) -> Vec<(&'static str, M)>
where (): siderust::coordinates::transform::providers::FrameRotationProvider<F, G>, C::Eph: siderust::ephemeris::Ephemeris {
    let mut all = vec![("direction", ONE), ("direction with engine", ONE), ("velocity", ONE), ("position", ONE), ("position with engine", ONE), ("spherical direction", ONE), ("both at once", ONE)];
    for k in 0..3 {
        let e: [f64; 3] = std::array::from_fn(|j| if j == k { 1.0 } else { 0.0 });
        let d = Direction::<F>::new(e[0], e[1], e[2]);
        let v = Velocity::<F, Per<Kilometer, Second>>::new(e[0] * 2.0, e[1] * 2.0, e[2] * 2.0);
        let p = Position::<Geocentric, F, Kilometer>::new(e[0] * 4.0, e[1] * 4.0, e[2] * 4.0);
        let s = spherical::Direction::<F>::from_cartesian(&d);
        let xyz = |d: Direction<G>| [d.x(), d.y(), d.z()];
        let pos = |p: Position<Geocentric, G, Kilometer>| [p.x().value() / 4.0, p.y().value() / 4.0, p.z().value() / 4.0];
        let got: [[f64; 3]; 7] = [
            xyz(d.to_frame_with::<G, _>(&jd, ctx)),
            xyz(d.using(ctx).to_frame::<G>(&jd)),
            { let w: Velocity<G, Per<Kilometer, Second>> = v.to_frame_with(&jd, ctx); [w.x().value() / 2.0, w.y().value() / 2.0, w.z().value() / 2.0] },
            pos(p.to_frame_with::<G, _>(&jd, ctx)),
            pos(p.using(ctx).to_frame::<G>(&jd)),
            xyz(s.to_frame_with::<G, _>(&jd, ctx).to_cartesian()),
            pos(p.to_with::<Geocentric, G, _>(&jd, ctx)),
        ];
        for (n, g) in got.iter().enumerate() { for j in 0..3 { all[n].1[j][k] = g[j]; } }
    }
    all
}
/// the same without a context
fn plain<F: ReferenceFrame, G: ReferenceFrame>(jd: JulianDate) -> Vec<(&'static str, M)>
where (): siderust::coordinates::transform::providers::FrameRotationProvider<F, G> {
    let mut all = vec![("direction", ONE), ("velocity", ONE), ("position", ONE), ("spherical direction", ONE)];
    for k in 0..3 {
        let e: [f64; 3] = std::array::from_fn(|j| if j == k { 1.0 } else { 0.0 });
        let d = Direction::<F>::new(e[0], e[1], e[2]);
        let v = Velocity::<F, Per<Kilometer, Second>>::new(e[0], e[1], e[2]);
        let p = Position::<Geocentric, F, Kilometer>::new(e[0], e[1], e[2]);
        let s = spherical::Direction::<F>::from_cartesian(&d);
        let xyz = |d: Direction<G>| [d.x(), d.y(), d.z()];
        let got: [[f64; 3]; 4] = [
            xyz(DirectionAstroExt::to_frame::<G>(&d, &jd)),
            { let w: Velocity<G, Per<Kilometer, Second>> = VectorAstroExt::to_frame(&v, &jd); [w.x().value(), w.y().value(), w.z().value()] },
            { let q: Position<Geocentric, G, Kilometer> = PositionAstroExt::to_frame(&p, &jd); [q.x().value(), q.y().value(), q.z().value()] },
            xyz(SphericalDirectionAstroExt::to_frame::<G>(&s, &jd).to_cartesian()),
        ];
        for (n, g) in got.iter().enumerate() { for j in 0..3 { all[n].1[j][k] = g[j]; } }
    }
    all
}
/// frames joined without regard to time
fn fixed<F: ReferenceFrame + MutableFrame, G: ReferenceFrame + MutableFrame>() -> Vec<(&'static str, M)>
where Direction<F>: TransformFrame<Direction<G>>, Velocity<F, Per<Kilometer, Second>>: TransformFrame<Velocity<G, Per<Kilometer, Second>>>,
      Position<Geocentric, F, Kilometer>: TransformFrame<Position<Geocentric, G, Kilometer>> {
    let mut all = vec![("direction, fixed", ONE), ("velocity, fixed", ONE), ("position, fixed", ONE), ("spherical direction, fixed", ONE), ("spherical position, fixed", ONE)];
    for k in 0..3 {
        let e: [f64; 3] = std::array::from_fn(|j| if j == k { 1.0 } else { 0.0 });
        let d = Direction::<F>::new(e[0], e[1], e[2]);
        let p = Position::<Geocentric, F, Kilometer>::new(e[0], e[1], e[2]);
        let xyz = |d: Direction<G>| [d.x(), d.y(), d.z()];
        let pos = |p: Position<Geocentric, G, Kilometer>| [p.x().value(), p.y().value(), p.z().value()];
        let got: [[f64; 3]; 5] = [
            xyz(TransformFrame::<Direction<G>>::to_frame(&d)),
            { let w: Velocity<G, Per<Kilometer, Second>> = TransformFrame::to_frame(&Velocity::<F, Per<Kilometer, Second>>::new(e[0], e[1], e[2])); [w.x().value(), w.y().value(), w.z().value()] },
            pos(TransformFrame::<Position<Geocentric, G, Kilometer>>::to_frame(&p)),
            xyz({ let s: spherical::Direction<G> = TransformFrame::to_frame(&spherical::Direction::<F>::from_cartesian(&d)); s.to_cartesian() }),
            pos({ let s: spherical::Position<Geocentric, G, Kilometer> = TransformFrame::to_frame(&spherical::Position::<Geocentric, F, Kilometer>::from_cartesian(&p)); s.to_cartesian() }),
        ];
        for (n, g) in got.iter().enumerate() { for j in 0..3 { all[n].1[j][k] = g[j]; } }
    }
    all
}

macro_rules! table {
    ($($a:literal $ta:ty : $($b:literal $tb:ty),+ ;)+) => {
        fn rotation<C: TransformContext>(f: &str, g: &str, jd: JulianDate, ctx: &C) -> Option<M> {
            Some(match (f, g) {
                $($(
                    ($a, $b) => matrix!(frame_rotation_with::<$ta, $tb, C>(jd, ctx)),
                    ($b, $a) => matrix!(frame_rotation_with::<$tb, $ta, C>(jd, ctx)),
                )+)+
                _ => return same(f, g, jd, ctx),
            })
        }
        fn carried(f: &str, g: &str, jd: JulianDate, ctx: &AstroContext<Vsop87Ephemeris, Fixed>) -> Option<Vec<(&'static str, M)>> {
            Some(match (f, g) {
                $($(
                    ($a, $b) => carriers::<$ta, $tb, _>(jd, ctx),
                    ($b, $a) => carriers::<$tb, $ta, _>(jd, ctx),
                )+)+
                _ => return None,
            })
        }
        fn bare(f: &str, g: &str, jd: JulianDate) -> Option<(M, Vec<(&'static str, M)>)> {
            let ctx = AstroContext::default();
            Some(match (f, g) {
                $($(
                    ($a, $b) => (matrix!(frame_rotation::<$ta, $tb>(jd, &ctx)), plain::<$ta, $tb>(jd)),
                    ($b, $a) => (matrix!(frame_rotation::<$tb, $ta>(jd, &ctx)), plain::<$tb, $ta>(jd)),
                )+)+
                _ => return None,
            })
        }
    };
}
table! {
    "ICRS" ICRS: "Mercury" MercuryFixed, "Venus" VenusFixed, "Mars" MarsFixed, "Moon" MoonPrincipalAxes, "Jupiter" JupiterSystemIII, "Saturn" SaturnFixed, "Uranus" UranusFixed,
        "Neptune" NeptuneFixed, "Pluto" PlutoFixed, "EquatorialMeanJ2000" EquatorialMeanJ2000, "EclipticMeanJ2000" EclipticMeanJ2000, "EME2000" EME2000,
        "EquatorialMeanOfDate" EquatorialMeanOfDate, "EquatorialTrueOfDate" EquatorialTrueOfDate, "ICRF" ICRF, "GCRS" GCRS, "TEME" TEME, "Galactic" Galactic, "FK4B1950" FK4B1950,
        "CIRS" CIRS, "TIRS" TIRS, "ITRF" ITRF, "ECEF" ECEF;
    "EME2000" EME2000: "EquatorialMeanJ2000" EquatorialMeanJ2000, "EclipticMeanJ2000" EclipticMeanJ2000, "EquatorialMeanOfDate" EquatorialMeanOfDate, "EquatorialTrueOfDate" EquatorialTrueOfDate,
        "ICRF" ICRF, "GCRS" GCRS, "Mercury" MercuryFixed, "Venus" VenusFixed, "Mars" MarsFixed, "Moon" MoonPrincipalAxes, "Jupiter" JupiterSystemIII, "Saturn" SaturnFixed, "Uranus" UranusFixed,
        "Neptune" NeptuneFixed, "Pluto" PlutoFixed, "CIRS" CIRS, "TIRS" TIRS, "ITRF" ITRF, "ECEF" ECEF;
    "ICRF" ICRF: "EquatorialMeanJ2000" EquatorialMeanJ2000, "EclipticMeanJ2000" EclipticMeanJ2000, "EquatorialMeanOfDate" EquatorialMeanOfDate, "EquatorialTrueOfDate" EquatorialTrueOfDate,
        "CIRS" CIRS, "TIRS" TIRS, "ITRF" ITRF, "ECEF" ECEF;
    "GCRS" GCRS: "EquatorialMeanJ2000" EquatorialMeanJ2000, "EquatorialTrueOfDate" EquatorialTrueOfDate, "EclipticMeanJ2000" EclipticMeanJ2000, "CIRS" CIRS, "TIRS" TIRS, "ITRF" ITRF, "ECEF" ECEF;
    "EquatorialMeanJ2000" EquatorialMeanJ2000: "EclipticMeanJ2000" EclipticMeanJ2000, "EquatorialMeanOfDate" EquatorialMeanOfDate, "EquatorialTrueOfDate" EquatorialTrueOfDate, "FK4B1950" FK4B1950,
        "Galactic" Galactic, "CIRS" CIRS, "TIRS" TIRS, "ITRF" ITRF, "ECEF" ECEF;
    "EquatorialMeanOfDate" EquatorialMeanOfDate: "EquatorialTrueOfDate" EquatorialTrueOfDate, "CIRS" CIRS, "TIRS" TIRS, "ITRF" ITRF, "ECEF" ECEF;
    "EquatorialTrueOfDate" EquatorialTrueOfDate: "TEME" TEME, "CIRS" CIRS, "TIRS" TIRS, "ITRF" ITRF, "ECEF" ECEF;
    "EclipticMeanJ2000" EclipticMeanJ2000: "Galactic" Galactic, "Mercury" MercuryFixed, "Venus" VenusFixed, "Mars" MarsFixed, "Moon" MoonPrincipalAxes, "Jupiter" JupiterSystemIII,
        "Saturn" SaturnFixed, "Uranus" UranusFixed, "Neptune" NeptuneFixed, "Pluto" PlutoFixed, "CIRS" CIRS, "TIRS" TIRS, "ITRF" ITRF, "ECEF" ECEF;
    "TEME" TEME: "CIRS" CIRS, "TIRS" TIRS, "ITRF" ITRF, "ECEF" ECEF;
    "Galactic" Galactic: "CIRS" CIRS, "TIRS" TIRS, "ITRF" ITRF, "ECEF" ECEF;
    "FK4B1950" FK4B1950: "CIRS" CIRS, "TIRS" TIRS, "ITRF" ITRF, "ECEF" ECEF;
    "CIRS" CIRS: "TIRS" TIRS;
    "TIRS" TIRS: "ITRF" ITRF;
    "ITRF" ITRF: "ECEF" ECEF;
}
fn same<C: TransformContext>(f: &str, g: &str, jd: JulianDate, ctx: &C) -> Option<M> {
    if f != g { return None; }
    Some(matrix!(match f {
        "ICRS" => frame_rotation_with::<ICRS, ICRS, C>(jd, ctx),
        "TEME" => frame_rotation_with::<TEME, TEME, C>(jd, ctx),
        "ITRF" => frame_rotation_with::<ITRF, ITRF, C>(jd, ctx),
        "Mars" => frame_rotation_with::<MarsFixed, MarsFixed, C>(jd, ctx),
        "CIRS" => frame_rotation_with::<CIRS, CIRS, C>(jd, ctx),
        _ => frame_rotation_with::<EquatorialTrueOfDate, EquatorialTrueOfDate, C>(jd, ctx),
    }))
}
fn timeless(f: &str, g: &str) -> Option<Vec<(&'static str, M)>> {
    type A = ICRS;
    type B = EquatorialMeanJ2000;
    type C = EclipticMeanJ2000;
    Some(match (f, g) {
        ("ICRS", "EquatorialMeanJ2000") => fixed::<A, B>(),
        ("ICRS", "EclipticMeanJ2000") => fixed::<A, C>(),
        ("EquatorialMeanJ2000", "ICRS") => fixed::<B, A>(),
        ("EquatorialMeanJ2000", "EclipticMeanJ2000") => fixed::<B, C>(),
        ("EclipticMeanJ2000", "ICRS") => fixed::<C, A>(),
        ("EclipticMeanJ2000", "EquatorialMeanJ2000") => fixed::<C, B>(),
        _ => return None,
    })
}
pub fn values<N: NutationModel>(jd: f64) -> (f64, f64, f64) { let n = N::nutation(JulianDate::new(jd)); (n.dpsi.value(), n.deps.value(), n.mean_obliquity.value()) }
fn offered(f: &str, g: &str, jd: f64, eop: bool, model: &str) -> Result<M, Mismatch> {
    let t = JulianDate::new(jd);
    let (a, b) = (AstroContext::<Vsop87Ephemeris, Fixed>::default(), AstroContext::<Vsop87Ephemeris, NullEop>::default());
    let m = match (eop, model) {
        (true, "2000A") => rotation(f, g, t, &a.with_model::<Iau2000A>()),
        (true, "2000B") => rotation(f, g, t, &a.with_model::<Iau2000B>()),
        (true, "2006") => rotation(f, g, t, &a.with_model::<Iau2006>()),
        (true, _) => rotation(f, g, t, &a.with_model::<Iau2006A>()),
        (false, "2000A") => rotation(f, g, t, &b.with_model::<Iau2000A>()),
        (false, "2000B") => rotation(f, g, t, &b.with_model::<Iau2000B>()),
        (false, "2006") => rotation(f, g, t, &b.with_model::<Iau2006>()),
        (false, _) => rotation(f, g, t, &b.with_model::<Iau2006A>()),
    };
    m.ok_or_else(|| table(format!("no rotation from {f} to {g} in the harness")))
}

/// the turns offered by name, each by all its names
fn named(way: &str, c: &Ctx, want: &M, model: &str) -> Outcome {
    use siderust::astro::{cio, polar_motion, precession as p, sidereal};
    use siderust::qtty::angular::Radians;
    let jd = JulianDate::new(c.jd);
    let rad = Radians::new;
    let (dx, dy) = if c.eop { (DX * AS / 1e3, DY * AS / 1e3) } else { (0.0, 0.0) };
    let (dpsi, deps) = (c.nut.0 + dx / c.nut.2.sin(), c.nut.1 + dy);
    let own = model == "2000B" && !c.eop; // functions that choose the nutation themselves
    let dirs = |f: &dyn Fn([f64; 3]) -> [f64; 3]| { let mut m = ONE; for k in 0..3 { let e: [f64; 3] = std::array::from_fn(|j| if j == k { 1.0 } else { 0.0 }); let v = f(e); for j in 0..3 { m[j][k] = v[j]; } } m };
    macro_rules! turned { ($f:ty, $g:ty, $m:path) => { dirs(&|e| { let d: Direction<$g> = $m(&Direction::<$f>::new(e[0], e[1], e[2]), &jd); [d.x(), d.y(), d.z()] }) }; }
    use siderust::coordinates::transform::ecliptic_of_date::{FromEclipticTrueOfDate, ToEclipticTrueOfDate};
    let got: Vec<(&str, M)> = match way {
        "precession" => vec![("precession_matrix_iau2006", matrix!(p::precession_matrix_iau2006(jd)))],
        "precession_nutation" => vec![("precession_nutation_matrix", matrix!(p::precession_nutation_matrix(jd, rad(dpsi), rad(deps))))],
        "nutation" if own => vec![("nutation_rotation_iau2000b", matrix!(siderust::astro::nutation::nutation_rotation_iau2000b(jd)))],
        "ecliptic" => vec![("gcrs_to_ecliptic_of_date_matrix", matrix!(p::gcrs_to_ecliptic_of_date_matrix(jd))),
            ("ICRS directions", turned!(ICRS, EclipticTrueOfDate, ToEclipticTrueOfDate::to_ecliptic_of_date)), ("GCRS directions", turned!(GCRS, EclipticTrueOfDate, ToEclipticTrueOfDate::to_ecliptic_of_date))],
        "from_ecliptic" => vec![("ecliptic_of_date_to_gcrs_matrix", matrix!(p::ecliptic_of_date_to_gcrs_matrix(jd))), ("directions", turned!(EclipticTrueOfDate, ICRS, FromEclipticTrueOfDate::to_icrs))],
        "mean_to_ecliptic" => vec![("mean_equatorial_to_ecliptic_of_date_matrix", matrix!(p::mean_equatorial_to_ecliptic_of_date_matrix(jd))), ("directions", turned!(EquatorialMeanOfDate, EclipticTrueOfDate, ToEclipticTrueOfDate::to_ecliptic_of_date))],
        "ecliptic_to_mean" => vec![("ecliptic_of_date_to_mean_equatorial_matrix", matrix!(p::ecliptic_of_date_to_mean_equatorial_matrix(jd))), ("directions", turned!(EclipticTrueOfDate, EquatorialMeanOfDate, FromEclipticTrueOfDate::to_equatorial_mean_of_date))],
        "true_ecliptic" if own => vec![("gcrs_to_true_ecliptic_of_date_matrix", matrix!(p::gcrs_to_true_ecliptic_of_date_matrix(jd)))],
        "from_true_ecliptic" if own => vec![("true_ecliptic_of_date_to_gcrs_matrix", matrix!(p::true_ecliptic_of_date_to_gcrs_matrix(jd)))],
        "mean_to_true_ecliptic" if own => vec![("mean_equatorial_to_true_ecliptic_of_date_matrix", matrix!(p::mean_equatorial_to_true_ecliptic_of_date_matrix(jd)))],
        "true_ecliptic_to_mean" if own => vec![("true_ecliptic_of_date_to_mean_equatorial_matrix", matrix!(p::true_ecliptic_of_date_to_mean_equatorial_matrix(jd)))],
        "intermediate" => { let q = cio::cip_cio(jd, rad(dpsi), rad(deps)); vec![("gcrs_to_cirs_matrix", matrix!(cio::gcrs_to_cirs_matrix(q.x, q.y, q.s)))] }
        "polar_motion" => { let (x, y) = if c.eop { (XP, YP) } else { (0.0, 0.0) }; vec![("polar_motion_matrix_from_eop", matrix!(polar_motion::polar_motion_matrix_from_eop(Arcseconds::new(x), Arcseconds::new(y), jd)))] }
        // the stars go round by sidereal time: apparent from the true equinox, mean from the mean one
        "sidereal" | "mean_sidereal" if !c.eop => {
            let ut1 = jd_ut1_from_tt(jd);
            let mut all = if way == "sidereal" { vec![("gast_iau2006", r3(sidereal::gast_iau2006(ut1, jd, rad(c.nut.0), rad(c.nut.2)).value()))] } else { vec![("gmst_iau2006", r3(sidereal::gmst_iau2006(ut1, jd).value()))] };
            if way == "sidereal" && own { all.push(("gast_iau2006a", r3(sidereal::gast_iau2006a(ut1, jd).value()))); }
            if way == "mean_sidereal" { all.push(("gmst_default", r3(siderust::astro::earth_rotation::gmst_default(jd).value()))); }
            all
        }
        _ => return Ok(()),
    };
    for (n, m) in got {
        let d = off(&m, want);
        ensure!(d < 6e-8, "named", "{n} at {}, EOP {}, nutation {model}: {m:?}, expected {want:?}, off by {d:e}", c.jd, c.eop);
        cov("named turns");
    }
    Ok(())
}

pub fn replay(s: &Value) -> Outcome {
    let (walk, epoch, eop, model) = (arr(s, "walk"), EPOCHS[i(s, "epoch") as usize - 1], st(s, "eop") == "some", st(s, "model"));
    let names: Vec<&str> = walk.iter().map(|w| w.as_str().unwrap()).collect();
    let jd = epoch.0;
    let nut = match model { "2000A" => values::<Iau2000A>(jd), "2000B" => values::<Iau2000B>(jd), "2006" => values::<Iau2006>(jd), _ => values::<Iau2006A>(jd) };
    let c = Ctx { jd, leap: epoch.1, eop, nut };
    let want = word(&s["turn"], &c);
    if st(s, "mode") == "way" { return named(names[0], &c, &want, model); }
    let loose = names.contains(&"FK4B1950");
    if st(s, "mode") == "edge" {
        let (f, g) = (names[0], names[1]);
        let got = offered(f, g, jd, eop, model)?;
        let lim = if loose { 2e-6 } else { 6e-8 };
        let mut known = Ok(());
        if off(&got, &want) >= lim && eop && c.leap.is_some() {
            // UT1-UTC added to an estimate of UT1 that has it already
            let twice = word(&s["turn"], &Ctx { leap: None, ..c });
            if off(&got, &twice) < lim { known = mm("ut1-twice", format!("{f} to {g} at {jd}: {got:?}, expected {want:?}, off by {:e}", off(&got, &want))); }
        }
        ensure!(known.is_err() || off(&got, &want) < lim, "rotation", "{f} to {g} at {jd}, EOP {eop}, nutation {model}: {got:?}, expected {want:?}, off by {:e}", off(&got, &want));
        ensure!(off(&mul(&got, &transpose(&got)), &ONE) < if loose { 1e-8 } else { 1e-12 }, "orthogonal", "{f} to {g} at {jd}: {got:?}");
        // an angle, not only a tolerance: bounds on what little turns there are
        if f != g && eop && model == "2006A" {
            let all = carried(f, g, JulianDate::new(jd), &AstroContext::<Vsop87Ephemeris, Fixed>::default()).ok_or_else(|| table(format!("{f} {g}")))?;
            for (n, m) in all {
                if n == "direction" && loose { continue; }
                let lim = if n.starts_with("spherical") { 5e-8 } else if loose { 1e-8 } else { 1e-12 };
                ensure!(off(&m, &got) < lim, "carrier", "{n} from {f} to {g} at {jd}: {m:?}, the rotation is {got:?}");
            }
            let (r, all) = bare(f, g, JulianDate::new(jd)).unwrap();
            for (n, m) in all {
                let lim = if n.starts_with("spherical") { 5e-8 } else if loose { 1e-8 } else { 1e-12 };
                ensure!(off(&m, &r) < lim, "default", "{n} from {f} to {g} at {jd} with no context: {m:?}, the rotation is {r:?}");
            }
            for (n, m) in timeless(f, g).unwrap_or_default() { ensure!(off(&m, &want) < 6e-8 && off(&m, &got) < if n.starts_with("spherical") { 5e-8 } else { 1e-12 }, "carrier", "{n} from {f} to {g}: {m:?}, expected {want:?}"); }
        }
        // what does not depend on the time, or on the Earth's orientation, or on the nutation, is not moved by them
        if !b(s, "timed") { ensure!(off(&got, &offered(f, g, EPOCHS[0].0, eop, model)?) == 0.0, "static", "{f} to {g} changes with time"); cov("fixed"); }
        if !b(s, "polar") { ensure!(off(&got, &offered(f, g, jd, !eop, model)?) == 0.0, "static", "{f} to {g} changes with Earth orientation"); }
        if !b(s, "modelled") { ensure!(off(&got, &offered(f, g, jd, eop, "2006")?) == 0.0, "static", "{f} to {g} changes with the nutation model"); }
        cov("rotations");
        return known;
    }
    let mut all = ONE;
    for w in names.windows(2) { all = mul(&offered(w[0], w[1], jd, eop, model)?, &all); }
    let (f, g) = (names[0], names[names.len() - 1]);
    let direct = offered(f, g, jd, eop, model)?;
    let lim = if loose { 2e-8 } else { 1e-11 };
    ensure!(off(&all, &direct) < lim, "path", "{names:?} at {jd} turns by {all:?}, the direct way by {direct:?}, off by {:e}", off(&all, &direct));
    cov("walks");
    Ok(())
}
