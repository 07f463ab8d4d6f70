//! Where a body is on its conic, and where a satellite comes to.
use crate::common::*;
use crate::{bail, ensure};
use principia::{AdaptiveStepper, Dop853, Dopri5, EventDirection};
use serde_json::Value;
use siderust::astro::conic::{ConicError, ConicOrbit, MeanMotionOrbit};
use siderust::astro::conic_equations::{calculate_conic_position, calculate_mean_motion_position, calculate_orbit_position, calculate_prepared_position};
use siderust::astro::dynamics::propagation::{FixedRk4Adapter, Propagator, PropagatorConfig};
use siderust::astro::dynamics::{DynamicsContext, OrbitState, Position, RadialThresholdEvent, SpacecraftProperties, SpacecraftState, TwoBody, Velocity};
use siderust::astro::orbit::{KeplerianOrbit, PreparedOrbit};
use siderust::bodies::planets::OrbitExt;
use siderust::coordinates::cartesian::position::EclipticMeanJ2000;
use siderust::coordinates::frames::GCRS;
use siderust::pod::propagation::*;
use siderust::qtty::angular::{Degree, Degrees};
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::length::{AstronomicalUnit, AstronomicalUnits, Kilometers};
use siderust::qtty::time::{Day, Seconds};
use siderust::qtty::{GravitationalParameter, IntegratorTolerances};
use siderust::time::JulianDate;
use std::f64::consts::TAU;

type V = [f64; 3];
fn plus(a: V, b: V) -> V { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
fn times(v: V, k: f64) -> V { v.map(|x| x * k) }
fn len(v: V) -> f64 { (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt() }
fn off(a: V, b: V) -> f64 { len(plus(a, times(b, -1.0))) }
fn cross(a: V, b: V) -> V { [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]] }
fn three(v: &Value) -> V { let a = ints(v); [a[0] as f64 / a[3] as f64, a[1] as f64 / a[3] as f64, a[2] as f64 / a[3] as f64] }
fn angle(v: &Value) -> f64 { let a = ints(v); (a[1] as f64).atan2(a[0] as f64) }
/// e and the root of 1 - e^2 (of e^2 - 1)
fn shape(v: &Value) -> (f64, f64) { let a = ints(v); (a[0] as f64 / a[1] as f64, a[2] as f64 / a[1] as f64) }
fn deg(x: f64) -> Degrees { Degrees::new(x.to_degrees()) }
fn au(x: f64) -> AstronomicalUnits { AstronomicalUnits::new(x) }
type Place = EclipticMeanJ2000<AstronomicalUnit>;
fn xyz(p: &Place) -> V { [p.x().value(), p.y().value(), p.z().value()] }
const K: f64 = 0.01720209895;
const KM: f64 = 149_597_870.7;
/// 1 - e cos E without cancellation
fn nearness(e: &Value, c: &Value) -> f64 { let (e, c) = (ints(e), ints(c)); (e[1] * c[2] - e[0] * c[0]) as f64 / (e[1] * c[2]) as f64 }
fn pick(s: &Value, salt: i64, n: usize) -> usize {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ salt as u64;
    for k in ["e", "i", "node", "peri"] { for x in ints(&s[k]) { h = (h ^ x as u64).wrapping_mul(0x100_0000_01b3); } }
    ((h >> 17) % n as u64) as usize
}
macro_rules! there {
    ($got:expr, $want:expr, $tol:expr, $key:expr, $($a:tt)*) => {{
        let (g, w): (V, V) = ($got, $want);
        ensure!(off(g, w) <= $tol, $key, "{}: got {g:?}, expected {w:?} within {:e}", format!($($a)*), $tol)
    }};
}

fn ellipse(s: &Value) -> Outcome {
    let (e, _) = shape(&s["e"]);
    let (i, node, peri) = (angle(&s["i"]), angle(&s["node"]), angle(&s["peri"]));
    let a = [0.39, 1.0, 5.2, 31.0][pick(s, 1, 4)];
    let m0 = [0.0, 0.7, -2.5, 20.0][pick(s, 2, 4)];
    let t0 = [2_451_545.0, 2_440_000.5, 2_460_310.25][pick(s, 3, 3)];
    let turns = [0.0, TAU, -TAU][pick(s, 4, 3)];
    let epoch = JulianDate::new(t0);
    let made = guard(|| KeplerianOrbit::try_new(au(a), e, deg(i), deg(node + turns), deg(peri - turns), deg(m0), epoch)).or_else(|m| mm("new", m))?;
    let orbit = match made { Ok(o) => o, Err(x) => bail!("new", "an ellipse refused: {x}") };
    let raw = KeplerianOrbit::new(au(a), e, deg(i), deg(node), deg(peri), deg(m0), epoch);
    let ready = PreparedOrbit::try_from_elements(au(a), e, deg(i), deg(node), deg(peri), deg(m0), epoch).or_else(|x| mm("new", x.to_string()))?;
    let from = PreparedOrbit::try_from(raw).or_else(|x| mm("new", x.to_string()))?;
    let n = K / (a * a.sqrt());
    ensure!((ready.mean_motion().value() / n - 1.0).abs() < 1e-10, "motion", "mean motion {} per day at {a} au, expected {n}", ready.mean_motion().value());
    let period = orbit.period().value();
    ensure!((period / (TAU / n * 86_400.0) - 1.0).abs() < 1e-10, "period", "period {period} s at {a} au");
    let conic = ConicOrbit::try_new(au(a * (1.0 - e)), e, deg(i), deg(node), deg(peri), deg(m0), epoch).or_else(|x| mm("new", x.to_string()))?;
    let rate = [0.9856, 0.033, 13.1][pick(s, 5, 3)];
    let mean = MeanMotionOrbit::try_new(au(a), e, deg(i), deg(node), deg(peri), AngularRate::<Degree, Day>::new(rate), epoch).or_else(|x| mm("new", x.to_string()))?;
    let mu = [1.327_124_400_18e11, 1.266_865_3e8, 4.0e11][pick(s, 6, 3)];
    let nm = (mu * 86_400.0 * 86_400.0 / (KM * KM * KM) / (a * a * a)).sqrt();
    for p in arr(s, "at") {
        let ea = angle(&p["E"]);
        let m = ea - e * ea.sin();
        let want = times(three(&p["p"]), a);
        let near = nearness(&s["e"], &p["E"]);
        ensure!((len(want) / a - near).abs() < 1e-9, "spec", "the spec contradicts itself");
        for turn in [-3i32, 0, 1, 40] {
            let to = |n: f64, m0: f64| { let all = m + TAU * turn as f64 - m0; (JulianDate::new(t0 + all / n), a * (1e-12 + (1.5e-9 * n + 4e-12 * all.abs() + 1e-14) * 2.0 / near)) };
            let say = |w: &str| format!("{w}: e {e} a {a} i {i} node {node} periapsis {peri} M0 {m0} E {ea} revolution {turn}");
            let (jd, tol) = to(n, m0);
            let places: [(&str, V); 7] = [
                ("kepler_position", xyz(&orbit.kepler_position(jd))), ("kepler_position as given", xyz(&raw.kepler_position(jd))), ("calculate_orbit_position", xyz(&calculate_orbit_position(&orbit, jd))),
                ("prepared", xyz(&ready.position_at(jd))), ("prepared from", xyz(&calculate_prepared_position(&from, jd))),
                ("conic", match conic.position_at(jd) { Ok(x) => xyz(&x), Err(x) => bail!("conic", "{x}") }), ("calculate_conic_position", match calculate_conic_position(&conic, jd) { Ok(x) => xyz(&x), Err(x) => bail!("conic", "{x}") }),
            ];
            for (w, got) in places { there!(got, want, tol, w, "{}", say(w)); }
            let (jd, tol) = to(nm, m0);
            there!(xyz(&orbit.position_with_mu(jd, GravitationalParameter::new(mu))), want, tol, "with_mu", "{}", say("position_with_mu"));
            let (jd, tol) = to(rate.to_radians(), 0.0);
            there!(match mean.position_at(jd) { Ok(x) => xyz(&x), Err(x) => bail!("mean", "{x}") }, want, tol, "mean", "{}", say("mean motion"));
            there!(match calculate_mean_motion_position(&mean, jd) { Ok(x) => xyz(&x), Err(x) => bail!("mean", "{x}") }, want, tol, "mean", "{}", say("mean motion"));
            cov_n("places", 10);
        }
    }
    Ok(())
}
fn long(s: &Value) -> Outcome {
    let (e, _) = shape(&s["e"]);
    for p in arr(s, "at") {
        let ea = angle(&p["E"]);
        let m = ea - e * ea.sin();
        let near = nearness(&s["e"], &p["E"]);
        let (want, z) = (three(&p["p"]), Degrees::new(0.0));
        let epoch = JulianDate::new(2_451_545.0);
        for whole in [0.0, TAU, -TAU] {
            let tol = 1e-12 + 5e-14 / near + (m + whole).abs() * 1e-15 / near;
            let o = KeplerianOrbit::try_new(au(1.0), e, z, z, z, deg(m + whole), epoch).or_else(|x| mm("new", x.to_string()))?;
            let c = ConicOrbit::try_new(au(1.0 - e), e, z, z, z, deg(m + whole), epoch).or_else(|x| mm("new", x.to_string()))?;
            let got = guard(|| (xyz(&o.kepler_position(epoch)), xyz(&calculate_orbit_position(&o, epoch)), c.position_at(epoch).map(|x| xyz(&x)))).or_else(|m| mm("long", m))?;
            there!(got.0, want, tol, "long", "kepler_position: e {e} E {ea} M {}", m + whole);
            there!(got.1, want, tol, "long", "calculate_orbit_position: e {e} E {ea} M {}", m + whole);
            there!(got.2.or_else(|x| mm("long", x.to_string()))?, want, tol * 2.0 + 2e-16 / (1.0 - e), "long", "conic: e {e} E {ea} M {}", m + whole);
            cov("long");
        }
    }
    Ok(())
}
fn hyperbola(s: &Value) -> Outcome {
    let (e, b) = shape(&s["e"]);
    let (i, node, peri) = (angle(&s["i"]), angle(&s["node"]), angle(&s["peri"]));
    let a = [0.5, 1.27, 9.0][pick(s, 1, 3)];
    let m0 = [0.0, 0.7, -30.0][pick(s, 2, 3)];
    let t0 = [2_451_545.0, 2_458_005.99][pick(s, 3, 2)];
    let q = a * { let x = ints(&s["e"]); (x[0] - x[1]) as f64 / x[1] as f64 };
    let o = ConicOrbit::try_new(au(q), e, deg(i), deg(node), deg(peri), deg(m0), JulianDate::new(t0)).or_else(|x| mm("new", format!("a hyperbola refused: {x}")))?;
    let n = K / (a * a.sqrt());
    for p in arr(s, "at") {
        let h = ints(&p["H"]);
        let (u, w) = (h[0] as f64, h[1] as f64);
        let (ch, sh) = ((u * u + w * w) / (2.0 * u * w), (u * u - w * w) / (2.0 * u * w));
        let m = e * sh - (u / w).ln();
        let want = times(three(&p["p"]), a);
        let slope = (sh * sh + b * b * ch * ch).sqrt() / (e * ch - 1.0);
        let dm = 1.5e-9 * n + 4e-15 * (m.abs() + m0.abs()) / (e - 1.0) + 2e-14;
        let tol = a * (1e-12 * ch * e + dm * slope);
        match guard(|| o.position_at(JulianDate::new(t0 + (m - m0) / n))).or_else(|m| mm("hyperbola", m))? {
            Ok(g) => there!(xyz(&g), want, tol, "hyperbola", "e {e} a {a} i {i} node {node} periapsis {peri} M0 {m0} u/w {u}/{w}"),
            Err(x) => bail!("hyperbola", "e {e} u/w {u}/{w}: {x}"),
        }
        cov("arms");
    }
    Ok(())
}
fn why(e: &ConicError) -> String { format!("{e:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").into() }
fn refuse(s: &Value) -> Outcome {
    let num = |k: &str, ok: f64| match st(s, k) { "ok" => ok, "zero" => 0.0, "neg" => -1.5, "nan" => f64::NAN, "inf" => f64::INFINITY, "circle" => 0.0, "half" => 0.5, "one" => 1.0, "over" => 1.5, x => panic!("{x}") };
    let e = if st(s, "e") == "neg" { -0.25 } else { num("e", 0.0) };
    let (q, i, node, peri, m) = (au(num("q", 1.5)), Degrees::new(num("i", 12.0)), Degrees::new(num("node", 75.0)), Degrees::new(num("peri", 300.0)), num("m", 33.0));
    let epoch = JulianDate::new(2_451_545.0);
    let causes: Vec<&str> = arr(s, "why").iter().filter_map(|x| x.as_str()).collect();
    let tell = |w: &str, r: Result<V, ConicError>| -> Outcome {
        match r {
            Ok(p) => { ensure!(causes.is_empty(), "taken", "{w}: taken although {causes:?}: {s}"); ensure!(p.iter().all(|x| x.is_finite()), "taken", "{w}: {p:?} from {s}"); cov("taken"); }
            Err(x) => { let n = why(&x); ensure!(causes.contains(&n.as_str()), "refused", "{w}: refused by {x:?}, expected {causes:?}: {s}"); ensure!(!x.to_string().is_empty(), "refused", "no words"); cov("refused"); }
        }
        Ok(())
    };
    let then = JulianDate::new(2_451_800.25);
    match st(s, "kind") {
        "kepler" => {
            let m = Degrees::new(m);
            tell("KeplerianOrbit::try_new", guard(|| KeplerianOrbit::try_new(q, e, i, node, peri, m, epoch).map(|o| xyz(&o.kepler_position(then)))).or_else(|p| mm("panic", p))?)?;
            tell("PreparedOrbit::try_from_elements", guard(|| PreparedOrbit::try_from_elements(q, e, i, node, peri, m, epoch).map(|o| xyz(&o.position_at(then)))).or_else(|p| mm("panic", p))?)?;
            tell("PreparedOrbit::try_from", guard(|| PreparedOrbit::try_from(KeplerianOrbit::new(q, e, i, node, peri, m, epoch)).map(|o| xyz(&o.position_at(then)))).or_else(|p| mm("panic", p))?)?;
        }
        "conic" => tell("ConicOrbit::try_new", guard(|| ConicOrbit::try_new(q, e, i, node, peri, Degrees::new(m), epoch).and_then(|o| o.position_at(then)).map(|p| xyz(&p))).or_else(|p| mm("panic", p))?)?,
        _ => tell("MeanMotionOrbit::try_new", guard(|| MeanMotionOrbit::try_new(q, e, i, node, peri, AngularRate::<Degree, Day>::new(m), epoch).and_then(|o| o.position_at(then)).map(|p| xyz(&p))).or_else(|p| mm("panic", p))?)?,
    }
    Ok(())
}

const GM: f64 = 398_600.441_8;
fn rv(o: &OrbitState) -> (V, V) { ([o.position.x().value(), o.position.y().value(), o.position.z().value()], [o.velocity.x().value(), o.velocity.y().value(), o.velocity.z().value()]) }
fn state(o: &OrbitState, r: V, v: V) -> OrbitState { OrbitState::new(o.epoch, Position::<GCRS>::new(r[0], r[1], r[2]), Velocity::<GCRS>::new(v[0], v[1], v[2])) }
fn six(r: V, v: V) -> [f64; 6] { [r[0], r[1], r[2], v[0], v[1], v[2]] }
fn by(m: &[[f64; 6]; 6], x: [f64; 6]) -> [f64; 6] { std::array::from_fn(|r| (0..6).map(|c| m[r][c] * x[c]).sum()) }
fn mul(a: &[[f64; 6]; 6], b: &[[f64; 6]; 6]) -> [[f64; 6]; 6] { std::array::from_fn(|r| std::array::from_fn(|c| (0..6).map(|k| a[r][k] * b[k][c]).sum())) }
/// how far apart two changes of a state are, against scale
fn apart(a: [f64; 6], b: [f64; 6], n: f64) -> f64 {
    let d = |x: &[f64; 6]| (0..3).map(|k| x[k] * x[k] + x[k + 3] * x[k + 3] / (n * n)).sum::<f64>().sqrt();
    let diff: [f64; 6] = std::array::from_fn(|k| a[k] - b[k]);
    d(&diff) / d(&b).max(1e-300)
}
struct Ship { e: f64, a: f64, n: f64, at: Vec<(f64, V, V)>, legs: Vec<(usize, i64)>, gates: Vec<Vec<(i64, i64, i64)>> }
fn ship(s: &Value) -> Ship {
    let (e, _) = shape(&s["e"]);
    let a = 7_500.0 / (1.0 - e);
    let n = (GM / (a * a * a)).sqrt();
    let at = arr(s, "at").iter().map(|p| { let t = angle(&p["E"]).rem_euclid(TAU); (t - e * t.sin(), times(three(&p["p"]), a), times(three(&p["s"]), a * n)) }).collect();
    let legs = arr(s, "legs").iter().map(|l| (i(l, "k") as usize - 1, i(l, "n"))).collect();
    let gates = arr(s, "gates").iter().map(|g| g.as_array().unwrap().iter().map(|x| (i(x, "n"), i(x, "out"), i(x, "rising"))).collect()).collect();
    Ship { e, a, n, at, legs, gates }
}
impl Ship {
    fn time(&self, l: (usize, i64)) -> f64 { (self.at[l.0].0 + TAU * l.1 as f64) / self.n }
    fn gate(&self, g: (i64, i64, i64)) -> f64 { let t = (5.0f64 / 13.0).acos(); let m = (t - self.e * t.sin()) * g.1 as f64; (m + TAU * (g.0 + (g.1 < 0) as i64) as f64) / self.n }
}
fn fly(s: &Value) -> Outcome {
    let sh = ship(s);
    let ctx = DynamicsContext::empty();
    let force = TwoBody::new(GravitationalParameter::new(GM));
    let t0 = JulianDate::new(2_460_000.5);
    let tight = IntegratorTolerances::uniform(1e-12, 1e-9, 1e-12);
    let mid = IntegratorTolerances::uniform(1e-11, 1e-8, 1e-11);
    let first = OrbitState::new(t0.into(), Position::<GCRS>::new(0.0, 0.0, 0.0), Velocity::<GCRS>::new(0.0, 0.0, 0.0));
    let start = state(&first, sh.at[sh.legs[0].0].1, sh.at[sh.legs[0].0].2);
    let begin = sh.time(sh.legs[0]);
    let whole = DynamicsContext::empty;
    let cfg = |every: Option<f64>| PropagatorConfig { tolerances: tight, max_steps: 200_000, event_dt: every.map(Seconds::new) };
    let p853 = Propagator::<Dop853>::new(Dop853::new(tight), force, cfg(None), whole());
    let p5 = Propagator::<Dopri5>::new(Dopri5::new(mid), force, cfg(None), whole());
    let p4 = Propagator::<FixedRk4Adapter>::new(FixedRk4Adapter::new(Seconds::new(10.0)), force, cfg(None), whole());
    let props = SpacecraftProperties::try_new(siderust::qtty::Kilograms::new(500.0), siderust::qtty::area::SquareMeters::new(4.0), siderust::qtty::DragCoefficient::new(2.2), siderust::qtty::area::SquareMeters::new(5.0), siderust::qtty::SrpCoefficient::new(1.3)).or_else(|e| mm("ship", format!("{e}")))?;
    type Fly<'a> = Box<dyn Fn(OrbitState, Seconds) -> Result<OrbitState, String> + 'a>;
    let rk = Rk4Integrator { step: Seconds::new(10.0) };
    let back = Rk4Integrator { step: Seconds::new(-10.0) };
    let (d5, d8) = (Dopri5Integrator { tolerances: mid }, Dop853Integrator { tolerances: tight });
    let craft = |o: OrbitState, dt: Seconds| -> Result<OrbitState, String> {
        let s = propagate_spacecraft(&d8, &force, SpacecraftState { orbit: o, properties: props }, dt, &ctx).map_err(|e| e.to_string())?;
        if format!("{:?}", s.properties) == format!("{props:?}") { Ok(s.orbit) } else { Err(format!("the craft became {:?}", s.properties)) }
    };
    let all: Vec<(&str, f64, Fly)> = vec![
        ("rk4", 2e-3, Box::new(|o, dt| propagate_orbit(&rk, &force, o, dt, &ctx).map_err(|e| e.to_string()))),
        ("rk4 of negative step", 2e-3, Box::new(|o, dt| propagate_orbit(&back, &force, o, dt, &ctx).map_err(|e| e.to_string()))),
        ("dopri5", 1e-3, Box::new(|o, dt| propagate_orbit(&d5, &force, o, dt, &ctx).map_err(|e| e.to_string()))),
        ("dop853", 5e-4, Box::new(|o, dt| propagate_orbit(&d8, &force, o, dt, &ctx).map_err(|e| e.to_string()))),
        ("craft", 5e-4, Box::new(craft)),
        ("propagator dop853", 5e-4, Box::new(|o, dt| p853.propagate(o, dt).map_err(|e| e.to_string()))),
        ("propagator dopri5", 1e-3, Box::new(|o, dt| p5.propagate(o, dt).map_err(|e| e.to_string()))),
        ("propagator rk4", 2e-3, Box::new(|o, dt| p4.propagate(o, dt).map_err(|e| e.to_string()))),
    ];
    for (name, tol, f) in &all {
        let mut here = start;
        for w in sh.legs.windows(2) {
            let dt = sh.time(w[1]) - sh.time(w[0]);
            let was = here.epoch;
            here = match guard(|| f(here, Seconds::new(dt))).or_else(|m| mm(name, m))? { Ok(x) => x, Err(e) => bail!(name, "{name}: a leg of {dt} s refused: {e}") };
            let (r, v) = rv(&here);
            let want = &sh.at[w[1].0];
            ensure!(off(r, want.1) <= *tol && off(v, want.2) <= tol * sh.n * 5.0, name, "{name}: e {} legs {:?}: at {r:?} {v:?}, expected {:?} {:?}: off by {:e} km {:e} km/s", sh.e, sh.legs, want.1, want.2, off(r, want.1), off(v, want.2));
            ensure!(((here.epoch - was).value() - dt).abs() < 1e-5, name, "{name}: a leg of {dt} s ended after {} s", (here.epoch - was).value());
            cov("legs");
        }
        ensure!(((here.epoch - start.epoch).value() - (sh.time(*sh.legs.last().unwrap()) - begin)).abs() < 1e-4, name, "{name}: the clock is off");
    }
    // only the first leg from here
    let (l0, l1) = (sh.legs[0], sh.legs[1]);
    let dt = sh.time(l1) - sh.time(l0);
    if sh.legs.len() > 2 && sh.legs[2] != (l0.0, 0) { return Ok(()); }
    changes(&sh, &start, l0, l1, dt, &ctx)?;
    if sh.e > 0.0 {
        events(&sh, &start, dt, "dop853", &|every, ev| Propagator::<Dop853>::new(Dop853::new(tight), force, cfg(Some(every)), whole()).propagate_with_events(start, Seconds::new(dt), ev).map_err(|e| e.to_string()))?;
        events(&sh, &start, dt, "dopri5", &|every, ev| Propagator::<Dopri5>::new(Dopri5::new(mid), force, cfg(Some(every)), whole()).propagate_with_events(start, Seconds::new(dt), ev).map_err(|e| e.to_string()))?;
        events(&sh, &start, dt, "rk4", &|every, ev| Propagator::<FixedRk4Adapter>::new(FixedRk4Adapter::new(Seconds::new(10.0)), force, cfg(Some(every)), whole()).propagate_with_events(start, Seconds::new(dt), ev).map_err(|e| e.to_string()))?;
    }
    limits(&start, dt, &force, &ctx)
}
type Flown = siderust::astro::dynamics::PropagationResult<siderust::time::TT, siderust::coordinates::centers::Geocentric, GCRS>;
fn events(sh: &Ship, start: &OrbitState, dt: f64, name: &'static str, go: &dyn Fn(f64, RadialThresholdEvent) -> Result<Flown, String>) -> Outcome {
    let level = sh.a * (1.0 - sh.e * 5.0 / 13.0);
    let begin = sh.time(sh.legs[0]);
    let energy = |o: &OrbitState| { let (r, v) = rv(o); v.iter().map(|x| x * x).sum::<f64>() / 2.0 - GM / len(r) };
    for (way, word, every) in [(EventDirection::Either, 0, 30.0), (EventDirection::Rising, 1, 47.25), (EventDirection::Falling, -1, 29.5)] {
        for terminal in [false, true] {
            let want: Vec<&(i64, i64, i64)> = sh.gates[0].iter().filter(|g| word == 0 || g.2 == word).collect();
            let ev = RadialThresholdEvent::new(Kilometers::new(level)).direction(way).terminal(terminal);
            let got = match guard(|| go(every, ev)).or_else(|m| mm("events", m))? { Ok(g) => g, Err(e) => bail!("events", "{name}: a leg of {dt} s every {every} s refused: {e}") };
            let n = if terminal { want.len().min(1) } else { want.len() };
            ensure!(got.events.len() == n, "events", "{name}: {} crossings ({way:?}, terminal {terminal}), expected {want:?}", got.events.len());
            for (g, w) in got.events.iter().zip(&want) {
                let t = (g.state.epoch - start.epoch).value();
                let at = sh.gate(**w) - begin;
                ensure!((t - at).abs() < 2.0 && (len(rv(&g.state).0) - level).abs() < 3.0, "events", "{name}: crossed after {t} s at {} km, expected {at} s, {level} km", len(rv(&g.state).0));
                cov("crossings");
            }
            let end = (got.samples.last().unwrap().epoch - start.epoch).value();
            let stop = if terminal && n == 1 { sh.gate(*want[0]) - begin } else { dt };
            ensure!(if terminal && n == 1 { (end - stop) * dt.signum() > -2.0 && (end - stop).abs() <= every + 2.0 } else { (end - stop).abs() < 1e-5 }, "events", "{name}: stopped after {end} s, expected {stop} s");
            for (k, x) in got.samples.iter().enumerate() {
                let t = (x.epoch - start.epoch).value();
// (times that are exact: principia may miss a sample when rounding lets a step end just short of it)
                if k + 1 < got.samples.len() { ensure!((t - k as f64 * every * dt.signum()).abs() < 1e-4, "samples", "{name}: sample {k} after {t} s, every {every} s of {dt} s"); }
                if k > 0 { ensure!(((x.epoch - got.samples[k - 1].epoch).value() * dt) > 0.0, "samples", "{name}: sample {k} after {t} s is not later than the one before"); }
                ensure!((energy(x) / (-GM / (2.0 * sh.a)) - 1.0).abs() < 1e-7, "samples", "{name}: sample {k} of energy {}", energy(x));
            }
            let whole = (end.abs() / every + 1e-9).floor() as usize;
            ensure!(got.samples.len() == whole + 1 || got.samples.len() == whole + 2, "samples", "{name}: {} samples in {end} s every {every} s", got.samples.len());
            if name == "rk4" { let most = (end.abs() / every + 1.0) * (every / 10.0).ceil() + 2.0; ensure!((got.steps_taken as f64) <= most, "steps", "{name}: {} steps of at most 10 s in {end} s with samples every {every} s", got.steps_taken); }
            cov("flights with events");
        }
    }
    Ok(())
}
/// what a small change at the start becomes
fn changes(sh: &Ship, start: &OrbitState, l0: (usize, i64), l1: (usize, i64), dt: f64, ctx: &DynamicsContext) -> Outcome {
    let force = TwoBody::new(GravitationalParameter::new(GM));
    let ((_, r0, v0), (_, r1, v1)) = (sh.at[l0.0], sh.at[l1.0]);
    let a = |r: V| times(r, -GM / len(r).powi(3));
    let mut known: Vec<(&str, [f64; 6], [f64; 6])> = vec![
        ("later", six(v0, a(r0)), six(v1, a(r1))),
        ("larger", six(r0, times(v0, -0.5)), six(plus(r1, times(v1, -1.5 * dt)), plus(times(v1, -0.5), times(a(r1), -1.5 * dt)))),
    ];
    for (w, axis) in [("turned about x", [1.0, 0.0, 0.0]), ("turned about y", [0.0, 1.0, 0.0]), ("turned about z", [0.0, 0.0, 1.0])] { known.push((w, six(cross(axis, r0), cross(axis, v0)), six(cross(axis, r1), cross(axis, v1)))); }
    let check = |name: &'static str, m: &[[f64; 6]; 6], tol: f64| -> Outcome {
        for (w, x, y) in &known { let d = apart(by(m, *x), *y, sh.n); ensure!(d < tol, name, "{name}: a state {w} by a little goes wrong by {d:e} after {dt} s (e {}, {l0:?} to {l1:?})", sh.e); }
        let j = |x: &[[f64; 6]; 6]| -> [[f64; 6]; 6] { std::array::from_fn(|r| std::array::from_fn(|c| (0..3).map(|k| x[k][r] * x[k + 3][c] - x[k + 3][r] * x[k][c]).sum())) };
        let f = j(m);
        // lengths in half axes, times in radians
        let u = |k: usize| if k < 3 { sh.a } else { sh.a * sh.n };
        for r in 0..6 { for c in 0..6 { let want = if c == r + 3 { 1.0 } else if r == c + 3 { -1.0 } else { 0.0 }; let d = (f[r][c] - want) * u(r) * u(c) / (sh.a * sh.a * sh.n); ensure!(d.abs() < tol * 2000.0, name, "{name}: areas of the phase space change by {d:e}"); } }
        cov("changes");
        Ok(())
    };
    let run = Propagator::<Dop853>::new(Dop853::new(IntegratorTolerances::uniform(1e-12, 1e-9, 1e-12)), force, PropagatorConfig::default(), DynamicsContext::empty());
    let at = |name: &'static str, o: &OrbitState| -> Outcome { let (r, v) = rv(o); ensure!(off(r, r1) < 2.0 && off(v, v1) < 2.0 * sh.n * 5.0, name, "{name}: at {r:?} {v:?}, expected {r1:?} {v1:?}"); ensure!(((o.epoch - start.epoch).value() - dt).abs() < 1e-5, name, "{name}: the clock is off"); Ok(()) };
    let (o, m) = guard(|| run.propagate_with_stm(*start, Seconds::new(dt))).or_else(|m| mm("stm", m))?.or_else(|e| mm("stm", e.to_string()))?;
    at("stm", &o)?;
    check("stm", m.as_array(), 2e-3)?;
    let (_, again) = propagate_stm(&force, *start, Seconds::new(dt), ctx).or_else(|e| mm("stm", e.to_string()))?;
    ensure!(again.as_array() == m.as_array(), "stm", "two answers");
    let steps = 7usize;
    let arc = VariationalPropagator { step: Seconds::new(dt / steps as f64) }.propagate(&force, *start, steps, ctx).or_else(|e| mm("arc", e.to_string()))?;
    ensure!(arc.len() == steps && !arc.is_empty(), "arc", "{} steps of {steps}", arc.len());
    at("arc", arc.final_state().unwrap())?;
    check("arc", arc.final_stm().unwrap().as_array(), 2e-3)?;
    // every step from the start, and each by the step before it
    let mut here = *start;
    let mut sofar: [[f64; 6]; 6] = std::array::from_fn(|r| std::array::from_fn(|c| (r == c) as u8 as f64));
    for (k, (o, phi)) in arc.steps.iter().enumerate() {
        ensure!(((o.epoch - start.epoch).value() - dt * (k + 1) as f64 / steps as f64).abs() < 1e-5, "arc", "step {k} at the wrong time");
        let (next, one) = propagate_stm(&force, here, Seconds::new(dt / steps as f64), ctx).or_else(|e| mm("arc", e.to_string()))?;
        ensure!(off(rv(&next).0, rv(o).0) < 1e-6, "arc", "step {k} is elsewhere");
        sofar = mul(one.as_array(), &sofar);
        for r in 0..6 { for c in 0..6 { ensure!((sofar[r][c] - phi.as_array()[r][c]).abs() <= 1e-9 * (1.0 + sofar[r].iter().fold(0.0f64, |a, x| a.max(x.abs()))), "arc", "step {k} changes otherwise than the steps before it one after the other"); } }
        here = next;
    }
    let none = VariationalPropagator { step: Seconds::new(60.0) }.propagate(&force, *start, 0, ctx).or_else(|e| mm("arc", e.to_string()))?;
    ensure!(none.is_empty() && none.final_state().is_none() && none.final_stm().is_none(), "arc", "no steps, but {none:?}");
    // the field a little stronger: as if time went faster
    if dt != 0.0 {
        let d8 = Dop853Integrator { tolerances: IntegratorTolerances::uniform(1e-13, 1e-10, 1e-13) };
        let got = guard(|| param_partials_central_diff(&d8, *start, Seconds::new(dt), ctx, GM, GM * 1e-5, |g| TwoBody::new(GravitationalParameter::new(g)))).or_else(|m| mm("partials", m))?.or_else(|e| mm("partials", e.to_string()))?;
        let push = by(m.as_array(), six([0.0; 3], v0));
        let fast = six(times(v1, dt), plus(v1, times(a(r1), dt)));
        let want: [f64; 6] = std::array::from_fn(|k| (fast[k] - push[k]) / (2.0 * GM));
        let size = |x: [f64; 6]| (0..3).map(|k| x[k] * x[k] + x[k + 3] * x[k + 3] / (sh.n * sh.n)).sum::<f64>().sqrt();
        ensure!(size(std::array::from_fn(|k| got.0[k] - want[k])) * GM < 5e-3 * size(fast), "partials", "by the field: {:?}, expected {want:?}", got.0);
        let same = ParamColumn(got.0);
        ensure!(same.max_relative_difference(&got) == 0.0, "partials", "a column differs from itself");
        let shifted = ParamColumn(std::array::from_fn(|k| got.0[k] + if k == 4 { 0.25 * got.0.iter().fold(0.0f64, |a, x| a.max(x.abs())) } else { 0.0 }));
        ensure!((shifted.max_relative_difference(&got) - 0.25).abs() < 1e-9, "partials", "a quarter off, but {}", shifted.max_relative_difference(&got));
        for bad in [0.0, -1.0, f64::NAN, f64::INFINITY] {
            match param_partials_central_diff(&d8, *start, Seconds::new(dt), ctx, GM, bad, |g| TwoBody::new(GravitationalParameter::new(g))) { Err(siderust::pod::propagation::pod_error::PodDynamicsError::InvalidParamStep(_)) => {} x => bail!("partials", "a step of {bad} gave {x:?}") }
        }
        let rel = siderust::pod::propagation::validation::max_rel_stm_predict_error(&force, *start, Seconds::new(dt), Seconds::new(20.0), [1e-3, -2e-3, 1e-3, 1e-6, 1e-6, -1e-6], ctx).or_else(|e| mm("predict", e.to_string()))?;
        ensure!(rel < 5e-3, "predict", "a small change is foretold wrong by {rel} after {dt} s");
        cov("partials");
    }
    Ok(())
}
fn limits(start: &OrbitState, dt: f64, force: &TwoBody, ctx: &DynamicsContext) -> Outcome {
    let same = |name: &'static str, r: Result<OrbitState, String>| -> Outcome { match r { Ok(o) => { ensure!(rv(&o) == rv(start) && (o.epoch - start.epoch).value() == 0.0, name, "no time, but {o:?}"); Ok(()) } Err(e) => bail!(name, "no time: {e}") } };
    let tol = IntegratorTolerances::uniform(1e-9, 1e-6, 1e-9);
    let zero = Seconds::new(0.0);
    same("zero", Rk4Integrator { step: Seconds::new(10.0) }.propagate(force, *start, zero, ctx).map_err(|e| e.to_string()))?;
    same("zero", Dopri5Integrator { tolerances: tol }.propagate(force, *start, zero, ctx).map_err(|e| e.to_string()))?;
    same("zero", Dop853Integrator { tolerances: tol }.propagate(force, *start, zero, ctx).map_err(|e| e.to_string()))?;
    let p = |max_steps, tolerances| Propagator::<Dopri5>::new(Dopri5::new(tol), *force, PropagatorConfig { tolerances, max_steps, event_dt: None }, DynamicsContext::empty());
    same("zero", p(10, tol).propagate(*start, zero).map_err(|e| e.to_string()))?;
    let no = |name: &'static str, what: &str, r: Result<String, String>| -> Outcome { match r { Ok(x) => bail!(name, "{what}: {x}"), Err(_) => { cov("limits"); Ok(()) } } };
    if dt != 0.0 {
        for bad in [0.0, f64::NAN] {
            no("step", "no step", guard(|| Rk4Integrator { step: Seconds::new(bad) }.propagate(force, *start, Seconds::new(dt), ctx).map(|x| format!("{x:?}")).map_err(|e| e.to_string())).or_else(|m| mm("step", m))?)?;
        }
        for bad in [0.0, f64::NAN, f64::INFINITY] {
            let a = FixedRk4Adapter::new(Seconds::new(bad));
            no("step", "no step of the adapter", AdaptiveStepper::step(&a, force, start, Seconds::new(dt), ctx).map(|x| format!("{x:?}")).map_err(|e| e.to_string()))?;
        }
        let a = FixedRk4Adapter::new(Seconds::new(10.0));
        // one step of a fixed stepper is its own step, or what is left of the way, and goes the way asked
        for (far, took) in [(25.0, 10.0), (10.0, 10.0), (4.0, 4.0)] {
            let far = far * dt.signum();
            let (o, h, next, _) = AdaptiveStepper::step(&a, force, start, Seconds::new(far), ctx).or_else(|e| mm("step", e.to_string()))?;
            let took = took * dt.signum();
            ensure!((h.value() - took).abs() < 1e-12 && ((o.epoch - start.epoch).value() - took).abs() < 1e-5, "step", "a step of {} s, asked for {far}, steps of 10", h.value());
            ensure!((next.value() - 10.0 * dt.signum()).abs() < 1e-12, "step", "after a step of {took} s one of {} is next", next.value());
        }
        for bad in [f64::NAN, f64::INFINITY] { no("step", "no time of the adapter", AdaptiveStepper::step(&a, force, start, Seconds::new(bad), ctx).map(|x| format!("{x:?}")).map_err(|e| e.to_string()))?; }
        no("max_steps", "none allowed", p(0, tol).propagate(*start, Seconds::new(dt)).map(|x| format!("{x:?}")).map_err(|e| e.to_string()))?;
        if dt.abs() > 100.0 { no("max_steps", "one allowed", p(1, tol).propagate(*start, Seconds::new(dt)).map(|x| format!("{x:?}")).map_err(|e| e.to_string()))?; }
        for bad in [0.0, -1e-9, f64::NAN] {
            let t = IntegratorTolerances::uniform(bad, 1e-6, 1e-9);
            no("tolerance", "no tolerance", guard(|| p(1000, t).propagate(*start, Seconds::new(dt)).map(|x| format!("{x:?}")).map_err(|e| e.to_string())).or_else(|m| mm("tolerance", m))?)?;
        }
    }
    Ok(())
}
pub fn replay(s: &Value) -> Outcome {
    match st(s, "k") {
        "ellipse" => ellipse(&s["s"]),
        "long" => long(&s["s"]),
        "hyperbola" => hyperbola(&s["s"]),
        "refuse" => refuse(&s["s"]),
        _ => fly(&s["s"]),
    }
}
