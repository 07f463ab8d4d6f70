//! The sky of an observer: what is north, east and up of him, and how azimuths are counted.
use crate::centers::{far, turn, xyz, Mock, Sky, AU};
use crate::common::*;
use crate::frames::{mul, r3, transpose, values, word, Ctx, Fixed, AS, EPOCHS, M};
use crate::ensure;
use serde_json::Value;
use siderust::astro::apparent::CorrectionPolicy;
use siderust::astro::earth_rotation::{jd_ut1_from_tt, jd_ut1_from_tt_eop};
use siderust::astro::nutation::Iau2006A;
use siderust::bodies::solar_system::{Jupiter, Mars, Mercury, Moon, Neptune, Saturn, Sun, Uranus, Venus};
use siderust::bodies::Star;
use siderust::coordinates::cartesian::{Direction, Position};
use siderust::coordinates::centers::{Geocentric, Geodetic, Topocentric};
use siderust::coordinates::frames::{EquatorialMeanJ2000, EquatorialMeanOfDate, EquatorialTrueOfDate, Horizontal, ECEF, ICRS};
use siderust::coordinates::horizontal::*;
use siderust::coordinates::sampling::SkyGrid;
use siderust::coordinates::spherical;
use siderust::coordinates::transform::horizontal::{FromHorizontal, ToHorizontal, TopocentricEquatorialExt, TopocentricHorizontalExt};
use siderust::coordinates::transform::{AstroContext, DirectionAstroExt, Transform};
use siderust::event::altitude::AltitudeProvider;
use siderust::event::azimuth::AzimuthProvider;
use siderust::event::horizontal::*;
use siderust::qtty::angular::Degrees;
use siderust::qtty::length::{AstronomicalUnit, Kilometer, LightYear, LightYears, Meters};
use siderust::qtty::length::nominal::SolarRadiuses;
use siderust::qtty::{SolarLuminosities, SolarMasses};
use siderust::targets::CoordinateWithPM;
use siderust::time::{JulianDate, ModifiedJulianDate};
use std::f64::consts::TAU;

type V = [f64; 3];
const LONS: [f64; 5] = [0.0, 90.0, -17.875, 180.0, 151.25];
const LIM: f64 = 6e-8;
fn three(v: &Value) -> V { let a = ints(v); [a[0] as f64, a[1] as f64, a[2] as f64] }
fn scaled(v: V, k: f64) -> V { v.map(|x| x * k) }
fn length(v: V) -> f64 { far(v, [0.0; 3]) }
fn unit(v: V) -> V { let l = length(v); if l == 0.0 { v } else { scaled(v, 1.0 / l) } }
/// north, east and up from altitude and azimuth in radians
fn seen(alt: f64, az: f64) -> V { [alt.cos() * az.cos(), alt.cos() * az.sin(), alt.sin()] }
fn rad(d: Degrees) -> f64 { d.value().to_radians() }
fn ranges(alt: f64, az: f64) -> Outcome {
    ensure!((-90.0..=90.0).contains(&alt) && (0.0..360.0 + 1e-12).contains(&az), "range", "altitude {alt}, azimuth {az}");
    Ok(())
}
fn era(ut1: f64) -> f64 { let u = ut1 - 2451545.0; (u.fract() + 0.779057273264 + 0.00273781191135448 * u).rem_euclid(1.0) * TAU }
fn gmst(ut1: f64, tt: f64) -> f64 {
    let t = (tt - 2451545.0) / 36525.0;
    era(ut1) + (0.014506 + 4612.156534 * t + 1.3915817 * t * t - 0.00000044 * t.powi(3) - 0.000029956 * t.powi(4) - 0.0000000368 * t.powi(5)) * AS
}
struct Place { jd: f64, given: f64, lon: f64, site: Geodetic<ECEF>, ctx: Ctx, words: Value }
impl Place {
    fn new(s: &Value) -> Place {
        let start = &s["start"];
        let jd = EPOCHS[i(start, "epoch") as usize - 1].0;
        let l = three(&s["lat"]);
        let lon = LONS[i(start, "lon") as usize - 1];
        let lat = l[0].atan2(l[1]).to_degrees();
        // the UT1 that is given is nowhere near TT, so that neither passes for the other
        Place { jd, given: jd - 0.28125, lon: lon.to_radians(), site: Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(700.0)), ctx: Ctx { jd, leap: None, eop: false, nut: values::<Iau2006A>(jd) }, words: s["words"].clone() }
    }
    fn ut1(&self, clock: &str) -> f64 {
        let t = JulianDate::new(self.jd);
        match clock {
            "given" => self.given,
            "context" => jd_ut1_from_tt_eop(t, &AstroContext::<Mock, Fixed>::default().eop_at_tt(t)).raw().value(),
            _ => jd_ut1_from_tt_eop(t, &AstroContext::<siderust::ephemeris::Vsop87Ephemeris>::default().eop_at_tt(t)).raw().value(),
        }
    }
    /// from the axes of a frame to those of the hour angle
    fn axes(&self, frame: &str, clock: &str) -> M {
        match frame {
            "mean" => r3(gmst(jd_ut1_from_tt(JulianDate::new(self.jd)).raw().value(), self.jd) + self.lon),
            f => mul(&r3(era(self.ut1(clock)) + self.lon), &word(&self.words[f], &self.ctx)),
        }
    }
}
fn alt_az(d: &spherical::Direction<Horizontal>) -> Result<V, Mismatch> { ranges(d.alt().value(), d.az().value())?; Ok(seen(rad(d.alt()), rad(d.az()))) }
fn star(ra: Degrees, dec: Degrees) -> Star<'static> {
    let p = spherical::Position::<Geocentric, EquatorialMeanJ2000, LightYear>::new(ra, dec, LightYears::new(10.0));
    Star::new("s", LightYears::new(10.0), SolarMasses::new(1.0), SolarRadiuses::new(1.0), SolarLuminosities::new(1.0), CoordinateWithPM::new_static(p, siderust::J2000))
}
/// up to the horizon
fn up(way: &str, p: &Place, v: V) -> Result<V, Mismatch> {
    let (tt, given) = (JulianDate::new(p.jd), JulianDate::new(p.given));
    let mjd: ModifiedJulianDate = tt.to::<siderust::MJD>();
    let direction = || Direction::<EquatorialTrueOfDate>::new(v[0], v[1], v[2]);
    let position = || Position::<Topocentric, EquatorialTrueOfDate, AstronomicalUnit>::new_with_params(p.site, v[0], v[1], v[2]);
    let icrs = || spherical::Direction::<ICRS>::from_cartesian(&Direction::<ICRS>::new(v[0], v[1], v[2]));
    let out = |d: Direction<Horizontal>| -> Result<V, Mismatch> { alt_az(&d.to_spherical())?; Ok([d.x(), d.y(), d.z()]) };
    let sph = |q: spherical::Position<Topocentric, Horizontal, AstronomicalUnit>| -> Result<V, Mismatch> {
        ensure!(*q.center_params() == p.site, "site", "the site becomes {:?}", q.center_params());
        let d = alt_az(&q.direction())?;
        Ok(scaled(d, q.distance.value()))
    };
    Ok(match way {
        "trait" => out(ToHorizontal::to_horizontal(&direction(), &given, &tt, &p.site))?,
        "precise" => out(DirectionAstroExt::to_horizontal_precise(&direction(), &tt, &given, &p.site))?,
        "ext" => out(DirectionAstroExt::to_horizontal(&direction(), &tt, &p.site))?,
        "position" => { let q = position().to_horizontal_position(&given, &tt); ensure!(*q.center_params() == p.site, "site", "the site becomes {:?}", q.center_params()); xyz(&q) }
        "event" => sph(equatorial_to_horizontal(&position().to_spherical(), p.site, tt))?,
        "event_true" => sph(equatorial_to_horizontal_true_of_date(&position().to_spherical(), p.site, tt))?,
        "event_context" => sph(equatorial_to_horizontal_true_of_date_with_ctx(&position().to_spherical(), p.site, tt, &AstroContext::<Mock, Fixed>::default()))?,
        "mean" => { let q: Position<Topocentric, Horizontal, AstronomicalUnit> = Position::<Topocentric, EquatorialMeanOfDate, AstronomicalUnit>::new_with_params(p.site, v[0], v[1], v[2]).transform(tt); ensure!(*q.center_params() == p.site, "site", "the site becomes {:?}", q.center_params()); xyz(&q) }
        "mean_spherical" => sph(Position::<Topocentric, EquatorialMeanOfDate, AstronomicalUnit>::new_with_params(p.site, v[0], v[1], v[2]).to_spherical().transform(tt))?,
        "star" => { let d = icrs(); alt_az(&star_horizontal(d.ra(), d.dec(), &p.site, tt))? }
        "star_apparent" | "star_geometric" => { let d = icrs(); alt_az(&star_horizontal_with_policy(d.ra(), d.dec(), &p.site, tt, if way == "star_geometric" { CorrectionPolicy::GEOMETRIC } else { CorrectionPolicy::APPARENT }))? }
        "target" => {
            let d = icrs();
            let s = star(d.ra(), d.dec());
            let (a, b) = (seen(d.altitude_at(&p.site, mjd).value(), d.azimuth_at(&p.site, mjd).value()), seen(s.altitude_at(&p.site, mjd).value(), s.azimuth_at(&p.site, mjd).value()));
            ensure!(far(a, b) < LIM, "star", "a direction is at {a:?}, a star in that direction at {b:?}");
            a
        }
        _ => {
            let d = icrs();
            let policy = if way == "target_geometric" { CorrectionPolicy::GEOMETRIC } else { CorrectionPolicy::APPARENT };
            let s = star(d.ra(), d.dec());
            let a = seen(d.altitude_at_with_policy(&p.site, mjd, policy).value(), d.azimuth_at_with_policy(&p.site, mjd, policy).value());
            let b = seen(s.altitude_at_with_policy(&p.site, mjd, policy).value(), AzimuthProvider::azimuth_at(&s, &p.site, mjd).value());
            ensure!((a[2] - b[2]).abs() < LIM, "star", "a direction is at {a:?}, a star in that direction at {b:?}");
            a
        }
    })
}
fn down(way: &str, p: &Place, v: V) -> Result<V, Mismatch> {
    let (tt, given) = (JulianDate::new(p.jd), JulianDate::new(p.given));
    let position = || Position::<Topocentric, Horizontal, AstronomicalUnit>::new_with_params(p.site, v[0], v[1], v[2]);
    Ok(match way {
        "trait" => { let d = FromHorizontal::to_equatorial(&Direction::<Horizontal>::new(v[0], v[1], v[2]), &given, &tt, &p.site); [d.x(), d.y(), d.z()] }
        "position" => xyz(&position().to_equatorial_position(&given, &tt)),
        "mean" => { let q: Position<Topocentric, EquatorialMeanOfDate, AstronomicalUnit> = position().transform(tt); xyz(&q) }
        _ => { let q: spherical::Position<Topocentric, EquatorialMeanOfDate, AstronomicalUnit> = position().to_spherical().transform(tt); xyz(&q.to_cartesian()) }
    })
}
fn convention(c: &Value) -> HorizontalConvention {
    let origin = match st(c, "origin") { "North" => AzimuthOrigin::North, "East" => AzimuthOrigin::East, "South" => AzimuthOrigin::South, _ => AzimuthOrigin::West };
    HorizontalConvention::new(origin, if c["cw"] == true { AzimuthSense::Clockwise } else { AzimuthSense::CounterClockwise })
}
fn count(way: &str, from: &HorizontalConvention, to: &HorizontalConvention, alt: f64, az: f64, site: Geodetic<ECEF>) -> Result<(f64, f64), Mismatch> {
    let native = HorizontalConvention::NORTH_CLOCKWISE;
    let dir = || spherical::Direction::<Horizontal>::new(Degrees::new(alt), Degrees::new(az));
    let pos = || spherical::Position::<Topocentric, Horizontal, Kilometer>::new_with_params(site, Degrees::new(alt), Degrees::new(az), siderust::qtty::length::Kilometers::new(42.5));
    let of = |d: spherical::Direction<Horizontal>| (d.alt().value(), d.az().value());
    let off = |q: spherical::Position<Topocentric, Horizontal, Kilometer>| -> Result<(f64, f64), Mismatch> {
        ensure!(q.distance.value() == 42.5 && *q.center_params() == site, "carried", "the distance is {} from {:?}", q.distance.value(), q.center_params());
        Ok((q.alt().value(), q.az().value()))
    };
    Ok(match way {
        "number" => (alt, convert_azimuth(Degrees::new(az), from, to).value()),
        "direction" => of(convert_direction(&dir(), from, to)),
        "position" => off(convert_position(&pos(), from, to))?,
        "native direction" => if *to == native { of(direction_to_native(&dir(), from)) } else { of(direction_from_native(&dir(), to)) },
        "native position" => if *to == native { off(position_to_native(&pos(), from))? } else { off(position_from_native(&pos(), to))? },
        "flip north" => (alt, flip_north_south(Degrees::new(az)).value()),
        _ => (alt, flip_sense(Degrees::new(az)).value()),
    })
}
fn bearing(seen: &Value) -> f64 { let a = ints(seen); (a[1] as f64).atan2(a[0] as f64).to_degrees() }
fn apart(a: f64, b: f64) -> f64 { let d = (a - b).rem_euclid(360.0); d.min(360.0 - d) }

fn convert(s: &Value) -> Outcome {
    let start = &s["start"];
    let site = Geodetic::<ECEF>::new(Degrees::new(3.0), Degrees::new(4.0), Meters::new(5.0));
    let mut conv = convention(&start["conv"]);
    let mut az = bearing(&s["seen"]) + 360.0 * i(start, "turns") as f64;
    for step in arr(s, "steps") {
        let (way, to) = (st(step, "way"), convention(&step["conv"]));
        let (alt, got) = count(way, &conv, &to, -31.25, az, site)?;
        let want = bearing(&step["seen"]);
        ensure!(apart(got, want) < 1e-9 && (0.0..360.0).contains(&got), "bearing", "{az} counted {conv} is {got} counted {to} by {way}, expected {want}");
        ensure!((alt + 31.25).abs() < 1e-12, "bearing", "the altitude is {alt} by {way}");
        let o = &step["conv"];
        ensure!(to.to_string() == format!("{}-{}", st(o, "origin"), if o["cw"] == true { "clockwise" } else { "counter-clockwise" }), "name", "{to}");
        (conv, az) = (to, got);
        cov("conventions");
    }
    let named = [(HorizontalConvention::NORTH_CLOCKWISE, AzimuthOrigin::North, AzimuthSense::Clockwise), (HorizontalConvention::SOUTH_CLOCKWISE, AzimuthOrigin::South, AzimuthSense::Clockwise),
                 (HorizontalConvention::NORTH_COUNTERCLOCKWISE, AzimuthOrigin::North, AzimuthSense::CounterClockwise), (HorizontalConvention::EAST_COUNTERCLOCKWISE, AzimuthOrigin::East, AzimuthSense::CounterClockwise)];
    ensure!(named.iter().all(|n| n.0 == HorizontalConvention::new(n.1, n.2)), "name", "the named conventions");
    Ok(())
}

fn walk(s: &Value) -> Outcome {
    let p = Place::new(s);
    let start = &s["start"];
    let (v, r) = (three(&start["v"]), i(start, "r"));
    // how far away the thing is: where it stands, at one, or far off
    let dist = match r { 0 => 0.0, 1 => 1.0, _ => 1e9 };
    let by = length(v);
    let mut at = scaled(v, 1.0 / by);
    let mut actual: Option<V> = None;
    let mut told = vec![];
    let mut conv = HorizontalConvention::NORTH_CLOCKWISE;
    for step in arr(s, "steps") {
        let (way, turned) = (st(step, "way"), &step["turn"]);
        let want = scaled(three(&step["vec"]), 1.0 / by / i(step, "by") as f64);
        told.push(way.to_string());
        match st(step, "do") {
            "count" => {
                // counted another way: through the cartesian components of that way of counting
                let to = convention(&step["conv"]);
                let d = unit(actual.unwrap_or(at));
                let (alt, az) = (d[2].clamp(-1.0, 1.0).asin().to_degrees(), d[1].atan2(d[0]).to_degrees());
                let (alt, az) = count(way, &conv, &to, alt, az, p.site)?;
                let k = ints(&step["seen"]);
                let l = by * i(step, "by") as f64;
                let got = seen(alt.to_radians(), az.to_radians());
                let want = [k[0] as f64 / l, k[1] as f64 / l, want[2]];
                ensure!(far(got, want) < LIM, "sky", "{told:?} for {v:?} at {:?} on {}: counted {to} {got:?}, expected {want:?}", p.site, p.jd);
                actual = Some(scaled(got, if dist == 0.0 { 1.0 } else { dist }));
                conv = to;
            }
            go => {
                let (form, frame, clock) = (st(turned, "form"), st(turned, "frame"), st(turned, "clock"));
                let axes = p.axes(frame, clock);
                let long = if form == "direction" { 1.0 } else { dist };
                // a thing on the equator of this frame; on the horizon what was found there
                let source = if go == "up" { scaled(turn(&transpose(&axes), at), long) } else { scaled(unit(actual.unwrap_or(at)), long) };
                let got = if go == "up" { up(way, &p, source)? } else { down(way, &p, source)? };
                let want = scaled(if go == "up" { want } else { turn(&transpose(&axes), want) }, long);
                ensure!(far(got, want) <= LIM * long, "sky", "{told:?} for {v:?} at {:?} on {}: {got:?}, expected {want:?}, off by {:e}", p.site, p.jd, far(got, want));
                cov(if go == "up" { "ups" } else { "downs" });
                actual = if go == "up" && dist != 0.0 { Some(got) } else { None };
            }
        }
        if st(step, "do") != "count" { at = want; }
        if st(step, "do") == "down" { actual = None; }
    }
    Ok(())
}

fn body(s: &Value) -> Outcome {
    let right = turned(s, 1.0);
    if right.as_ref().is_err_and(|m| m.key == "body") && turned(s, -1.0).is_ok() { return mm("earth-turns-backwards", right.unwrap_err().msg); }
    right
}
/// with the Earth turning this way or that
fn turned(s: &Value, sense: f64) -> Outcome {
    let p = Place::new(s);
    let name = st(&s["start"], "body");
    let sky = Sky { mock: false, backwards: false, ecef: Value::Null };
    let tt = JulianDate::new(p.jd);
    let mjd: ModifiedJulianDate = tt.to::<siderust::MJD>();
    let from_earth: V = match name {
        "Moon" => sky.landmark("Moon", p.jd),
        n => { let (b, e) = (sky.landmark(n, p.jd), sky.landmark("Earth", p.jd)); std::array::from_fn(|k| b[k] - e[k]) }
    };
    // the site, on the ellipsoid
    let (lon, lat, h) = (p.lon, p.site.lat.value().to_radians(), 700.0);
    let (a, f): (f64, f64) = (6_378_137.0, 1.0 / 298.257_223_563);
    let e2 = f * (2.0 - f);
    let w = a / (1.0 - e2 * lat.sin().powi(2)).sqrt();
    let ground = [(w + h) * lat.cos() * lon.cos(), (w + h) * lat.cos() * lon.sin(), (w * (1.0 - e2) + h) * lat.sin()].map(|x| x / AU / 1000.0);
    // in intermediate axes
    let geo = turn(&word(&p.words["ecliptic"], &p.ctx), from_earth);
    let earth = turn(&r3(-sense * era(p.ut1("default"))), ground);
    let topo: V = std::array::from_fn(|k| geo[k] - earth[k]);
    let q = turn(&r3(era(p.ut1("default")) + lon), topo);
    let (sl, cl) = lat.sin_cos();
    let want = [cl * q[2] - sl * q[0], q[1], cl * q[0] + sl * q[2]];
    let dist = length(want);
    let close = |what: &str, got: V, want: V, scale: f64| -> Outcome { ensure!(far(got, want) < scale, "body", "{what} of {name} from {:?} on {}: {got:?}, expected {want:?}, off by {:e}", p.site, p.jd, far(got, want)); Ok(()) };
    let lim = 4e-8;
    let back = word(&p.words["back"], &p.ctx);
    macro_rules! target { ($($n:literal $t:ident)+) => { match name { $($n => ($t.altitude_at(&p.site, mjd).value(), $t.azimuth_at(&p.site, mjd).value()),)+ _ => unreachable!() } }; }
    let (alt, az) = target!("Sun" Sun "Moon" Moon "Mercury" Mercury "Venus" Venus "Mars" Mars "Jupiter" Jupiter "Saturn" Saturn "Uranus" Uranus "Neptune" Neptune);
    // the same by hand
    let j2000 = { let m = siderust::coordinates::transform::providers::frame_rotation::<siderust::coordinates::frames::EclipticMeanJ2000, EquatorialMeanJ2000>(tt, &AstroContext::default()); let v = turn(m.as_matrix(), from_earth); Position::<Geocentric, EquatorialMeanJ2000, AstronomicalUnit>::new(v[0], v[1], v[2]) };
    let app = geocentric_j2000_to_apparent_topocentric(&j2000, p.site, tt);
    let cart = xyz(&app.to_cartesian());
    close("the apparent place", cart, turn(&back, topo), lim * dist)?;
    let hor = equatorial_to_horizontal(&app, p.site, tt);
    close("the place on the horizon", scaled(alt_az(&hor.direction())?, hor.distance.value()), want, lim * dist)?;
    close("the altitude and azimuth", seen(alt, az), scaled(want, 1.0 / dist), lim)?;
    ranges(alt.to_degrees(), az.to_degrees())?;
    match name {
        "Sun" => {
            let g = Sun::get_apparent_geocentric_equ::<AstronomicalUnit>(tt);
            close("the geocentric place", xyz(&g.to_cartesian()), turn(&back, geo), lim)?;
            close("the topocentric place", xyz(&Sun::get_apparent_topocentric_equ::<AstronomicalUnit>(tt, p.site).to_cartesian()), turn(&back, topo), lim)?;
            let h = Sun::get_horizontal::<Kilometer>(tt, p.site);
            close("the horizontal place", scaled(alt_az(&h.direction())?, h.distance.value() / AU), want, lim)?;
        }
        "Moon" => {
            close("the topocentric place", xyz(&Moon::get_apparent_topocentric_equ::<AstronomicalUnit>(tt, p.site).to_cartesian()), turn(&back, topo), lim * dist)?;
            let h = Moon::get_horizontal::<Kilometer>(tt, p.site);
            close("the horizontal place", scaled(alt_az(&h.direction())?, h.distance.value() / AU), want, lim * dist)?;
        }
        _ => (),
    }
    cov("bodies");
    Ok(())
}

fn grid(s: &Value) -> Outcome {
    let g = &s["start"];
    let (lo, hi, step, az) = (i(g, "lo") as f64, i(g, "hi") as f64, i(g, "step") as f64, i(g, "az") as f64);
    let equal = g["equal"] == true;
    let d = Degrees::new;
    let cells = if equal { SkyGrid::equal_area(d(step), d(az)) } else { SkyGrid::with_steps(d(step), d(az)) };
    if !equal && step == az && lo == 0.0 && hi == 90.0 { ensure!(SkyGrid::uniform(d(step)).iter_cells().zip(cells.iter_cells()).all(|(a, b)| a.direction.alt() == b.direction.alt() && a.direction.az() == b.direction.az()), "grid", "the uniform grid of {step}"); }
    // the upper hemisphere unless told otherwise
    let cells = if lo == 0.0 && hi == 90.0 { cells } else { cells.with_alt_range(d(lo), d(hi)) };
    let mut want = vec![];
    for m in arr(s, "middles") {
        let alt = m.as_i64().unwrap() as f64 / 2.0;
        let cos = alt.to_radians().cos();
        let n = if !equal { i(s, "across") as usize } else if az <= 0.0 { 1 } else { ((TAU * cos.max(0.0) / az.to_radians()).round() as usize).max(1) };
        let wide = if equal { 360.0 / n as f64 } else { az };
        for k in 0..n { want.push((alt, (k as f64 + 0.5) * wide, cos * step.to_radians() * wide.to_radians())); }
    }
    let got: Vec<(f64, f64, f64)> = cells.iter_cells().map(|c| (c.direction.alt().value(), c.direction.az().value(), c.solid_angle.value())).collect();
    ensure!(got.len() == want.len() && cells.len() == want.len() && cells.is_empty() == want.is_empty(), "grid", "{g} has {} cells, says {} and {}, expected {}", got.len(), cells.len(), cells.is_empty(), want.len());
    for (a, b) in got.iter().zip(&want) { ensure!((a.0 - b.0).abs() < 1e-9 && (a.1 - b.1).abs() < 1e-9 && (a.2 - b.2).abs() < 1e-12, "grid", "{g} has {a:?}, expected {b:?}"); }
    let others: Vec<(f64, f64)> = cells.iter().map(|c| (c.alt().value(), c.az().value())).collect();
    let more: Vec<(f64, f64)> = (&cells).into_iter().map(|c| (c.alt().value(), c.az().value())).collect();
    let with: Vec<(f64, f64, f64)> = cells.with_solid_angle().map(|(c, w)| (c.alt().value(), c.az().value(), w.value())).collect();
    ensure!(others == more && with == got && others.len() == got.len() && others.iter().zip(&got).all(|(a, b)| a.0 == b.0 && a.1 == b.1), "grid", "{g} is gone through in other orders");
    cov("grids");
    Ok(())
}

pub fn replay(s: &Value) -> Outcome {
    match st(s, "kind") { "convention" => convert(s), "body" => body(s), "grid" => grid(s), _ => walk(s) }
}
