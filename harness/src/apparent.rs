//! Where a source seems to be: aberration, light bent by bodies, the motion of stars, and what was corrected.
use crate::centers::{far, ground, site, turn, xyz, Mock, Sky, AU};
use crate::common::*;
use crate::ensure;
use crate::frames::{values, word, Ctx, Fixed, EPOCHS};
use serde_json::Value;
use siderust::astro::aberration::*;
use siderust::astro::apparent::*;
use siderust::astro::light_deflection::*;
use siderust::astro::nutation::Iau2006A;
use siderust::astro::proper_motion::*;
use siderust::bodies::Star;
use siderust::coordinates::cartesian::{Direction, Displacement, Velocity};
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::{EclipticMeanJ2000, EquatorialMeanJ2000, ICRS};
use siderust::coordinates::observation::{Apparent, Astrometric, ObserverState};
use siderust::coordinates::spherical;
use siderust::coordinates::transform::AstroContext;
use siderust::ephemeris::{Ephemeris, Vsop87Ephemeris};
use siderust::qtty::angular::{Degrees, MilliArcseconds, Radians};
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::length::nominal::SolarRadiuses;
use siderust::qtty::length::{AstronomicalUnit, AstronomicalUnits, Kilometer, LightYear, LightYears};
use siderust::qtty::{unit, Per, SolarLuminosities, SolarMasses};
use siderust::targets::CoordinateWithPM;
use siderust::time::JulianDate;
use std::f64::consts::PI;

type V = [f64; 3];
type Eq = EquatorialMeanJ2000;
type AuDay = Per<AstronomicalUnit, unit::Day>;
/// of light, AU a day
const C: f64 = 299_792.458 * 86400.0 / AU;
const J2000: f64 = 2_451_545.0;
fn vec(v: &Value) -> V { let a = ints(v); [a[0] as f64, a[1] as f64, a[2] as f64] }
fn dot(a: V, b: V) -> f64 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }
fn scaled(v: V, k: f64) -> V { v.map(|x| x * k) }
fn plus(a: V, b: V) -> V { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn unit(v: V) -> V { scaled(v, 1.0 / dot(v, v).sqrt()) }
fn on(ra: f64, dec: f64) -> V { [dec.cos() * ra.cos(), dec.cos() * ra.sin(), dec.sin()] }
fn dir<F: siderust::coordinates::frames::ReferenceFrame>(d: &Direction<F>) -> V { [d.x(), d.y(), d.z()] }
fn near(what: &str, key: &str, got: V, want: V, lim: f64) -> Outcome {
    ensure!(far(got, want) < lim, key, "{what} is at {got:?}, not at {want:?} ({:.3e} off)", far(got, want));
    Ok(())
}

/// the direction a moving observer sees, in every way that can be asked
fn ways(m: &str, u: V, vel: Velocity<Eq, AuDay>, words: &Value) -> Vec<(&'static str, V, V)> {
    let apply = m == "apply";
    let mut out = vec![];
    let d = Direction::<Eq>::new(u[0], u[1], u[2]);
    out.push(("function", u, dir(&if apply { apply_aberration_to_direction_with_velocity(d, &vel) } else { remove_aberration_from_direction_with_velocity(d, &vel) })));
    let obs = ObserverState::from_velocity(vel, JulianDate::new(J2000));
    let c = Ctx { jd: J2000, leap: None, eop: false, nut: values::<Iau2006A>(J2000) };
    macro_rules! frame { ($f:ty, $w:expr, $name:expr, $name2:expr) => {{
        let turned = turn(&word(&words[$w], &c), u);
        let d = Direction::<$f>::new(turned[0], turned[1], turned[2]);
        let back = crate::frames::transpose(&word(&words[$w], &c));
        let got = if apply { dir(Astrometric::new(d).to_apparent(&obs).direction()) } else { dir(Apparent::new(d).to_astrometric(&obs).direction()) };
        out.push(($name, u, turn(&back, got)));
        let sph = d.to_spherical();
        let got = if apply { dir(&Astrometric::new(sph).to_apparent(&obs).direction().to_cartesian()) } else { dir(&Apparent::new(sph).to_astrometric(&obs).into_inner().to_cartesian()) };
        out.push(($name2, u, turn(&back, got)));
    }}; }
    frame!(Eq, "j", "equatorial", "equatorial spherical");
    frame!(ICRS, "i", "ICRS", "ICRS spherical");
    frame!(EclipticMeanJ2000, "e", "ecliptic", "ecliptic spherical");
    out
}
fn moving(s: &Value) -> Outcome {
    let mut at = unit(vec(&s["start"]["u"]));
    let mut through = Direction::<Eq>::new(at[0], at[1], at[2]);
    for step in arr(s, "steps") {
        let (sp, b, m) = (vec(&step["speed"]), unit(vec(&step["towards"])), st(step, "means"));
        let v = scaled(b, C * sp[0] / sp[1]);
        let vel = Velocity::<Eq, AuDay>::new(v[0], v[1], v[2]);
        let want = unit(vec(&step["to"]));
        for (way, u, got) in ways(m, at, vel, &s["words"]) {
            near(&format!("{way}: {u:?} seen at {}/{} of light towards {b:?} ({m})", sp[0], sp[1]), way, got, want, if way.contains("spherical") { 3e-8 } else if way == "function" { 1e-14 } else { 2e-11 })?;
        }
        through = if m == "apply" { apply_aberration_to_direction_with_velocity(through, &vel) } else { remove_aberration_from_direction_with_velocity(through, &vel) };
        at = want;
    }
    near("the direction seen by one after another", "walk", dir(&through), at, 1e-12)
}

fn bent(s: V, q: V, r: f64) -> V {
    let k = dot(s, q);
    if 1.0 + k < 1e-14 { return s; }
    unit(std::array::from_fn(|n| s[n] + r / (1.0 + k) * (q[n] - k * s[n])))
}
fn bend(s: &Value) -> Outcome {
    let x = &s["start"];
    let (star, q, d) = (unit(vec(&x["s"])), unit(vec(&x["q"])), i(x, "far") as f64);
    let r = ints(&x["r"])[0] as f64 / ints(&x["r"])[1] as f64;
    let body = Displacement::<Eq, AstronomicalUnit>::new(q[0] * d, q[1] * d, q[2] * d);
    let sd = Direction::<Eq>::new(star[0], star[1], star[2]);
    let got = dir(&body_deflection(sd, body, AstronomicalUnits::new(r * d)));
    near(&format!("light of {star:?} bent by a body {d} AU behind {q:?}, {r} of it its radius"), "bent", got, unit(vec(&x["v"])), 1e-13)?;
    // the Sun and the planets
    let sun = 2.0 * 1.327_124_400_18e11 / 299_792.458f64.powi(2) / AU;
    let real = [sun, sun / 1047.348644, sun / 3497.9018].map(|r| r / d);
    let slack = |r: f64| 1e-15 + 1e-6 * r * 20.0;
    near("light bent by the Sun", "Sun", dir(&solar_deflection(sd, body)), bent(star, q, real[0]), slack(real[0]))?;
    near("light bent by Jupiter", "Jupiter", dir(&jupiter_deflection(sd, body)), bent(star, q, real[1]), slack(real[1]))?;
    near("light bent by Saturn", "Saturn", dir(&saturn_deflection(sd, body)), bent(star, q, real[2]), slack(real[2]))?;
    // one after the other, each from its own side
    let turned = |v: V| [v[1], v[2], v[0]];
    let (qj, qs) = (turned(q), turned(turned(q)));
    let dis = |v: V, d: f64| Displacement::<Eq, AstronomicalUnit>::new(v[0] * d, v[1] * d, v[2] * d);
    let all = dir(&full_planetary_deflection(sd, body, dis(qj, 5.0), dis(qs, 9.0)));
    near("light bent by all", "all", all, bent(bent(bent(star, q, sun / d), qj, sun / 1047.348644 / 5.0), qs, sun / 3497.9018 / 9.0), slack(real[0] + sun))?;
    // undone
    let k = dot(star, q);
    let twice = real[0] * ((1.0 - k).max(0.0) / (1.0 + k).max(1e-9)).sqrt() * real[0] / (1.0 + k).max(1e-9);
    let back = dir(&solar_deflection_inverse(solar_deflection(sd, body), body));
    near("light straightened again", "straight", back, star, 1e-15 + 4.0 * twice)?;
    // how far
    let angle = (-k).clamp(-1.0, 1.0).acos();
    let told = solar_deflection_magnitude(Radians::new(angle), AstronomicalUnits::new(d)).value() / 3600.0 * PI / 180.0;
    let want = if angle < 1e-7 { 0.0 } else { real[0] / (angle / 2.0).tan() };
    ensure!(angle < 1e-7 || (told - want).abs() < 1e-6 * want + 1e-16, "magnitude", "at {angle} rad from the Sun light is bent by {told} rad, not {want}");
    Ok(())
}

fn near_star(mu: Option<ProperMotion>, ra: f64, dec: f64, jd: f64) -> Star<'static> {
    let p = spherical::Position::<Geocentric, Eq, LightYear>::new(Degrees::new(ra), Degrees::new(dec), LightYears::new(10.0));
    Star::new("s", LightYears::new(10.0), SolarMasses::new(1.0), SolarRadiuses::new(1.0), SolarLuminosities::new(1.0), CoordinateWithPM::new_raw(p, JulianDate::new(jd), mu))
}
fn sph(p: &spherical::Position<Geocentric, Eq, AstronomicalUnit>) -> (V, f64) {
    (on(p.ra().value().to_radians(), p.dec().value().to_radians()), p.distance.value())
}
type Rate = AngularRate<unit::Degree, unit::Year>;
fn linear(s: &Value) -> Outcome {
    let x = &s["start"];
    let (p, r, to) = (ints(&x["place"]), ints(&x["rate"]), ints(&x["to"]));
    let (years, epoch) = (i(x, "years") as f64, i(x, "epoch") as f64);
    let (ra, dec) = (p[0] as f64, p[1] as f64);
    let want = on((to[0] as f64).to_radians(), (to[1] as f64).to_radians());
    let pole = p[1].abs() == 90;
    let plain = ProperMotion::from_mu_alpha(Rate::new(r[0] as f64), Rate::new(r[1] as f64));
    let starred = ProperMotion::from_mu_alpha_star(Rate::new(r[0] as f64 * dec.to_radians().cos()), Rate::new(r[1] as f64));
    for (mu, starred) in [(plain, false), (starred, true)] {
        let got = if b(x, "star") {
            near_star(Some(mu), ra, dec, J2000 + 365.25 * epoch).position_at(JulianDate::new(J2000 + 365.25 * (epoch + years)))
        } else {
            let at = spherical::position::EquatorialMeanJ2000::<AstronomicalUnit>::new(Degrees::new(ra), Degrees::new(dec), 7.0);
            set_proper_motion_since_j2000(at, mu, JulianDate::new(J2000 + 365.25 * years))
        };
        if pole && starred {
            cov("rates of right ascension at a pole");
            ensure!(matches!(got, Err(ProperMotionError::RightAscensionUndefinedAtPole { .. })), "pole", "a rate in right ascension at the pole gave {got:?}");
            continue;
        }
        let Ok(got) = got else { return mm("linear", format!("{x}: {got:?}")) };
        let (v, d) = sph(&got);
        // right ascension means nothing at the pole, where the rate of one has an end
        near(&format!("a star at {ra}, {dec} moving by {r:?} for {years} years"), "linear", v, want, if pole && r[1] != 0 { 1e-9 } else { 1e-11 })?;
        let far = if b(x, "star") { 10.0 * 9_460_730_472_580.8 / AU } else { 7.0 };
        ensure!((d / far - 1.0).abs() < 1e-9, "distance", "the star was {far} AU away and is {d}");
    }
    if r == [0, 0] && b(x, "star") {
        let (v, _) = sph(&near_star(None, ra, dec, J2000).position_at(JulianDate::new(J2000 + 365.25 * years)).map_err(|e| Mismatch { key: "still".into(), msg: e.to_string() })?);
        near("a star that does not move", "still", v, want, 1e-11)?;
    }
    Ok(())
}

fn space(s: &Value) -> Outcome {
    let x = &s["start"];
    let v = vec(&arr(x, "star")[1]).map(|x| x / 100.0);
    let mut p = vec(&arr(x, "star")[0]);
    let mut year = i(x, "epoch") as f64;
    let first = (p, year);
    for step in arr(s, "steps") {
        let to = vec(&step["to"]);
        let dt = 100.0 * i(step, "centuries") as f64;
        // from where it is now, and from where it was at first, when this is not its first step
        for (p, year, until) in [(p, year, year + dt), (first.0, first.1, year + dt)] {
            let r = dot(p, p).sqrt();
            if to == [0.0; 3] || r == 0.0 { cov("through the Sun"); continue; }
            let (ra, dec) = (p[1].atan2(p[0]), (p[2] / r).asin());
            let (e1, e2) = ([-ra.sin(), ra.cos(), 0.0], [-dec.sin() * ra.cos(), -dec.sin() * ra.sin(), dec.cos()]);
            let mas = 180.0 / PI * 3_600_000.0;
            let (mu_a, mu_d) = (dot(v, e1) / r * mas, dot(v, e2) / r * mas);
            let motion = StarSpaceMotion {
                pm_ra_cos_dec: AngularRate::new(mu_a), pm_dec: AngularRate::new(mu_d), parallax: MilliArcseconds::new(mas / r),
                radial_velocity: siderust::qtty::velocity::Velocity::<Kilometer, unit::Second>::new(dot(v, p) / r * AU / (365.25 * 86400.0)),
            };
            let jd = |y: f64| JulianDate::new(J2000 + 365.25 * y);
            let at = spherical::position::EquatorialMeanJ2000::<AstronomicalUnit>::new(Degrees::new(ra.to_degrees()), Degrees::new(dec.to_degrees()), 1.0);
            let pole = p[0] == 0.0 && p[1] == 0.0;
            let mut told = vec![("function", propagate_space_motion(at, motion, jd(until), jd(year)))];
            if year == 0.0 { told.push(("since J2000", propagate_space_motion_since_j2000(at, motion, jd(until)))); }
            let deg = |x: f64| Rate::new(x / 3_600_000.0);
            let full = |mu: ProperMotion| near_star(Some(mu), ra.to_degrees(), dec.to_degrees(), J2000 + 365.25 * year).with_parallax(motion.parallax).with_radial_velocity(motion.radial_velocity).position_at(jd(until));
            told.push(("star", full(ProperMotion::from_mu_alpha_star(deg(mu_a), deg(mu_d)))));
            told.push(("star told by true rate", full(ProperMotion::from_mu_alpha(deg(mu_a / dec.cos()), deg(mu_d)))));
            for (way, got) in told {
                if pole { cov("space motion at a pole"); ensure!(got.is_err(), "pole", "{way}: space motion at a pole gave {got:?}"); continue; }
                let Ok(got) = got else { return mm("space", format!("{way}: {x}: {got:?}")) };
                let (u, d) = sph(&got);
                near(&format!("{way}: the star {p:?} AU from the Sun with {v:?} AU a year, {} years on,", until - year), "space", scaled(u, d), to, 3e-9 * (dot(to, to).sqrt() + r))?;
            }
            let wrong = StarSpaceMotion { parallax: MilliArcseconds::new(if dt > 0.0 { 0.0 } else { -1.0 }), ..motion };
            ensure!(propagate_space_motion(at, wrong, jd(until), jd(year)).is_err(), "parallax", "a star without parallax was moved");
        }
        (p, year) = (to, year + dt);
    }
    Ok(())
}

fn policy(s: &Value) -> Outcome {
    let stages = [CorrectionPolicy::PROPER_MOTION, CorrectionPolicy::LIGHT_TIME, CorrectionPolicy::ABERRATION, CorrectionPolicy::LIGHT_DEFLECTION];
    let of = |code: i64| (0..4).filter(|k| code >> k & 1 == 1).fold(CorrectionPolicy::GEOMETRIC, |p, k| p.union(stages[k]));
    ensure!(CORRECTION_ORDER == stages, "order", "corrections come in the order {CORRECTION_ORDER:?}");
    ensure!(CorrectionPolicy::APPARENT == of(15) && CorrectionPolicy::default() == of(0) && CorrectionPolicy::APPARENT.bits().count_ones() == 4, "sets", "apparent is {:?}", CorrectionPolicy::APPARENT);
    let asked = of(i(&s["start"], "asked"));
    let mut a = AppliedCorrections::from_request(asked);
    let mut p = CorrectionPolicy::GEOMETRIC;
    ensure!(a.applied == CorrectionPolicy::GEOMETRIC && a.light_time_iters == 0, "request", "before anything is done {a:?}");
    for step in arr(s, "steps") {
        let stage = of(i(step, "stage"));
        let or = p | stage;
        p |= stage;
        a.record(stage);
        let want = of(i(step, "applied"));
        ensure!(p == want && or == want && a.applied == want && a.requested == asked, "record", "after {stage:?} {a:?} and {p:?}, not {want:?} of {asked:?}");
        for (n, w) in arr(step, "within").iter().enumerate() {
            ensure!(Some(p.contains(of(n as i64))) == w.as_bool(), "contains", "{p:?} contains {n}: {}", p.contains(of(n as i64)));
        }
    }
    Ok(())
}

fn lorentz(u: V, beta: V) -> V {
    // along the motion and across
    let b2 = dot(beta, beta);
    let b = b2.sqrt();
    let n = scaled(beta, 1.0 / b);
    let c = dot(u, n);
    let across = plus(u, scaled(n, -c));
    plus(scaled(n, (c + b) / (1.0 + b * c)), scaled(across, (1.0 - b2).sqrt() / (1.0 + b * c)))
}
fn observer(s: &Value) -> Outcome {
    let x = &s["start"];
    let n = i(x, "site") as usize;
    let jd = EPOCHS[i(x, "epoch") as usize - 1].0;
    let t = JulianDate::new(jd);
    let words = &s["words"];
    let plain = Ctx { jd, leap: None, eop: false, nut: values::<Iau2006A>(jd) };
    let equator = word(&words["q"], &plain);
    let vel = |v: &Velocity<Eq, AuDay>| [v.x().value(), v.y().value(), v.z().value()];
    macro_rules! ecl { ($e:ty) => { { let v = <$e>::earth_barycentric_velocity(t); [v.x().value(), v.y().value(), v.z().value()] } }; }
    if n == 0 {
        let told = ObserverState::geocentric(t);
        let want = turn(&equator, ecl!(Vsop87Ephemeris));
        ensure!(told.jd() == t, "when", "an observer at {jd} is at {:?}", told.jd());
        near("the velocity of the Earth", "geocentric", vel(told.velocity()), want, 1e-12)?;
        let at = |d: f64| xyz(&Vsop87Ephemeris::earth_barycentric(JulianDate::new(jd + d)));
        let moved = scaled(plus(at(0.125), scaled(at(-0.125), -1.0)), 4.0);
        near("the velocity of the Earth, by where it is", "moves", want, turn(&equator, moved), 2e-6)?;
        let beta = scaled(want, 1.0 / C);
        for u in [[1.0, 0.0, 0.0], [0.0, 0.6, 0.8], [-2.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0], [0.0, 0.0, -1.0], unit(want)] {
            let d = Direction::<Eq>::new(u[0], u[1], u[2]);
            near("seen from the Earth", "earth", dir(&apply_aberration_to_direction(d, t)), lorentz(u, beta), 1e-14)?;
            near("not seen from the Earth", "earth", dir(&remove_aberration_from_direction(d, t)), lorentz(u, scaled(beta, -1.0)), 1e-14)?;
            for r in [0.0, 1e-3, 12.5, 3e5] {
                type P = siderust::coordinates::cartesian::position::EquatorialMeanJ2000<AstronomicalUnit>;
                let p = P::new(u[0] * r, u[1] * r, u[2] * r);
                near("a place seen from the Earth", "place", xyz(&apply_aberration(p, t)), scaled(lorentz(u, beta), r), 1e-14 * r + 1e-300)?;
                near("a place not seen from the Earth", "place", xyz(&remove_aberration(p, t)), scaled(lorentz(u, scaled(beta, -1.0)), r), 1e-14 * r + 1e-300)?;
            }
        }
        return Ok(());
    }
    for mock in [true, false] {
        let sky = |backwards| Sky { mock, backwards, ecef: words["g"].clone() };
        let g = ground(n);
        let spin = scaled([-g[1], g[0], 0.0], 7.2921150e-5 * 86400.0);
        let earth = if mock { ecl!(Mock) } else { ecl!(Vsop87Ephemeris) };
        let want = |backwards| turn(&equator, plus(earth, sky(backwards).carried(spin, jd)));
        let told = if mock { ObserverState::topocentric_with(&site(n), t, &AstroContext::<Mock, Fixed>::default()) } else { ObserverState::topocentric(&site(n), t) };
        ensure!(told.jd() == t, "when", "an observer at {jd} is at {:?}", told.jd());
        let got = vel(told.velocity());
        if far(got, want(false)) < 1e-10 { cov("site velocities"); continue; }
        // the turn of the Earth the other way, as the frames of C02 have it
        ensure!(far(got, want(true)) >= 1e-10, "earth-turns-backwards", "the observer at site {n} moves by {got:?}, not {:?} AU a day", want(false));
        near("the velocity of the observer", "site", got, want(false), 1e-10)?;
    }
    Ok(())
}

pub fn replay(s: &Value) -> Outcome {
    match st(s, "kind") { "moving" => moving(s), "bend" => bend(s), "linear" => linear(s), "space" => space(s), "policy" => policy(s), _ => observer(s) }
}
