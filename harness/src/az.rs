//! Azimuth searches: replay of AzSearch behaviours (user-defined body).
use crate::alt::{days, mjd, site, cmp_periods, Iv, Mjd};
use crate::common::*;
use crate::ensure;
use serde_json::Value;
use siderust::astro::apparent::CorrectionPolicy;
use siderust::coordinates::centers::Geodetic;
use siderust::coordinates::frames::ECEF;
use siderust::event::altitude::CrossingDirection;
use siderust::event::azimuth::{self as az, AzimuthExtremumKind, AzimuthProvider, AzimuthQuery, SearchOpts};
use siderust::qtty::*;

/// Azimuth along straight pieces of 36 ticks.
struct Path { t0: f64, tick: f64, nodes: Vec<f64>, hint: Option<Days>, swing: bool }
impl Path {
    fn deg(&self, t: f64) -> f64 {
        let x = (t - self.t0) / (36.0 * self.tick);
        let n = self.nodes.len() - 1;
        let i = (x.floor().max(0.0) as usize).min(n - 1);
        let mut f = x - i as f64;
        if self.swing { f = 0.5 + 0.5 * ((f - 0.5) * 36.0 * self.tick / 5e-6).tanh(); }
        let d = 5.0 * (self.nodes[i] + (self.nodes[i + 1] - self.nodes[i]) * f);
        d.rem_euclid(360.0)
    }
}
impl AzimuthProvider for Path {
    fn azimuth_at(&self, _o: &Geodetic<ECEF>, t: Mjd) -> Radians { Radians::new(self.deg(days(t)).to_radians()) }
    fn azimuth_periods(&self, q: &AzimuthQuery) -> Vec<Iv> { az::generic_azimuth_periods(self, q) }
    fn scan_step_hint(&self) -> Option<Days> { self.hint }
}

pub fn replay_az(v: &Value) -> Outcome {
    let tick = 1.0 / 1024.0;
    let moves = ints(&v["path"]);
    let mut nodes = vec![i(v, "start") as f64];
    for m in &moves { nodes.push(nodes[nodes.len() - 1] + *m as f64); }
    let hint = i(v, "hint");
    let t0 = 60123.25;
    let p = Path { t0, tick, nodes, hint: (hint > 0).then(|| Days::new(hint as f64 * tick)), swing: st(v, "shape") == "swing" };
    let w = ints(&v["win"]);
    let at = |t: i64| t0 + t as f64 * tick;
    let (a, b_) = (at(w[0]), at(w[1]));
    let win = Iv::new(mjd(a), mjd(b_));
    let here = site(0.0, 0.0, 0.0);
    let opts = SearchOpts::default();
    let eps = if p.swing { 2e-5 } else { 2e-7 };
    for bd in arr(v, "bands") {
        let e = ints(&bd["b"]);
        let (lo, hi) = (Degrees::new(e[0] as f64 * 5.0), Degrees::new(e[1] as f64 * 5.0));
        let want: Vec<(f64, f64)> = arr(bd, "in").iter().map(|x| { let y = ints(x); (at(y[0]), at(y[1])) }).collect();
        let q = AzimuthQuery { observer: here, window: win, min_azimuth: lo, max_azimuth: hi, opts, correction_policy: CorrectionPolicy::APPARENT };
        let what = format!("azimuth band {} .. {} deg", e[0] * 5, e[1] * 5);
        let ins = az::azimuth_ranges(&p, &here, win, lo, hi, opts);
        if b(bd, "rests") { cov("rest_on_edge"); continue; }
        if b(bd, "brief") {
            // a stay or gap shorter than the scan step: it may be missed, nothing else may be wrong
            let edge = |t: f64| t == a || t == b_ || want.iter().any(|w| (w.0 - t).abs() < eps || (w.1 - t).abs() < eps);
            for p in &ins { ensure!(edge(days(p.start)) && edge(days(p.end)), "band", "{what}: period {p:?} does not start and end where the path meets an edge ({want:?})"); }
            cov("brief_stays");
            continue;
        }
        // in a swing the stays of a second or two in the bands swept over are left out of account
        let settle = |v: &[Iv]| -> Vec<Iv> {
            if !p.swing { return v.to_vec(); }
            let mut o: Vec<Iv> = Vec::new();
            for x in v {
                match o.last_mut() {
                    Some(y) if days(x.start) - days(y.end) < 5e-5 => y.end = x.end,
                    _ => if days(x.end) - days(x.start) > 5e-5 { o.push(*x) },
                }
            }
            o
        };
        let m = cmp_periods("band", &settle(&ins), &want, eps);
        if let Err(x) = m { return mm("band", format!("{what}: {}", x.msg)); }
        let mut out = Vec::new();
        let mut t = a;
        for (x, y) in &want { if *x > t { out.push((t, *x)); } t = *y; }
        if t < b_ { out.push((t, b_)); }
        let m = cmp_periods("outside", &settle(&az::outside_azimuth_range(&p, &here, win, lo, hi, opts)), &out, eps);
        if let Err(x) = m { return mm("outside", format!("outside {what}: {}", x.msg)); }
        for (k, other) in [az::azimuth_periods(&p, &q), az::in_azimuth_range(&p, &here, win, lo, hi, opts), p.in_azimuth_range(here, win, lo, hi, opts)].iter().enumerate() {
            ensure!(other.len() == ins.len() && other.iter().zip(&ins).all(|(x, y)| x == y), "alias", "{what}: entry point {k} gives {other:?}, azimuth_ranges {ins:?}");
        }
        if e[0] > e[1] { cov("wrap_bands"); }
        if want.is_empty() { cov("empty_bands"); }
    }
    for br in arr(v, "bearings") {
        let bb = i(br, "b");
        let want: Vec<(f64, i64)> = arr(br, "pass").iter().map(|x| { let y = ints(x); (at(y[0]), y[1]) }).collect();
        let got: Vec<(f64, i64)> = az::azimuth_crossings(&p, &here, win, Degrees::new(bb as f64 * 5.0), opts).iter()
            .map(|e| (days(e.mjd), if e.direction == CrossingDirection::Rising { 1 } else { -1 })).collect();
        let touch = b(br, "touch");
        let what = format!("bearing {} deg", bb * 5);
        for (t, d) in want.iter().filter(|_| !b(br, "brief")) {
            ensure!(got.iter().any(|g| (g.0 - t).abs() < eps && g.1 == *d), "crossing", "{what}: the passage at {t} ({d}) is missing from {got:?}");
        }
        if !touch && !b(br, "brief") {
            ensure!(got.len() == want.len(), "crossing", "{what}: {} crossings returned {got:?}, {} expected {want:?}", got.len(), want.len());
        } else {
            // a path that touches or rests on the bearing, or meets it on the edge of the window
            for g in &got {
                let off = (p.deg(g.0) - bb as f64 * 5.0 + 180.0).rem_euclid(360.0) - 180.0;
                ensure!(off.abs() < 0.01, "crossing", "{what}: crossing reported at {} where the azimuth is {} deg", g.0, p.deg(g.0));
            }
        }
        if p.swing {
            for g in &got {
                let off = (p.deg(g.0) - bb as f64 * 5.0 + 180.0).rem_euclid(360.0) - 180.0;
                ensure!(off.abs() < 0.3, "crossing", "{what}: crossing reported at {} in a fast swing, where the azimuth is {} deg", g.0, p.deg(g.0));
                cov("swung_passages");
            }
        }
        ensure!(got.windows(2).all(|w| w[0].0 <= w[1].0), "order", "{what}: not in order {got:?}");
        cov_n("passages", want.len() as u64);
    }
    if !b(v, "rest") {
        let want: Vec<(f64, f64, &str)> = arr(v, "turns").iter().map(|x| { let y = x.as_array().unwrap(); (at(y[0].as_i64().unwrap()), y[1].as_f64().unwrap() * 5.0, y[2].as_str().unwrap()) }).collect();
        let got = az::azimuth_extrema(&p, &here, win, opts);
        let show: Vec<(f64, f64, &str)> = got.iter().map(|e| (days(e.mjd), e.azimuth.value(), if e.kind == AzimuthExtremumKind::Max { "max" } else { "min" })).collect();
        ensure!(show.len() == want.len(), "extrema", "extrema: {show:?}, expected {want:?}");
        for (g, w) in show.iter().zip(&want) {
            let off = (g.1 - w.1 + 180.0).rem_euclid(360.0) - 180.0;
            ensure!((g.0 - w.0).abs() < 1e-6 && off.abs() < 0.01 && g.2 == w.2, "extrema", "extremum {g:?}, expected {w:?}");
        }
        cov_n("turning_points", want.len() as u64);
    }
    Ok(())
}

// --- recorded searches on real bodies -------------------------------------------------
use crate::alt::units;
use serde_json::json;

struct Dyn(Box<dyn AzimuthProvider + Sync>);
impl AzimuthProvider for Dyn {
    fn azimuth_at(&self, o: &Geodetic<ECEF>, t: Mjd) -> Radians { self.0.azimuth_at(o, t) }
    fn azimuth_at_with_policy(&self, o: &Geodetic<ECEF>, t: Mjd, p: CorrectionPolicy) -> Radians { self.0.azimuth_at_with_policy(o, t, p) }
    fn azimuth_periods(&self, q: &AzimuthQuery) -> Vec<Iv> { self.0.azimuth_periods(q) }
    fn scan_step_hint(&self) -> Option<Days> { self.0.scan_step_hint() }
}
struct AQ<'a> { name: &'a str, body: &'a Dyn, lon: f64, lat: f64, start: f64, end: f64, lo: f64, hi: f64, step: f64 }

fn az_line(q: &AQ) -> (Value, Option<f64>) {
    let win = Iv::new(mjd(q.start), mjd(q.end));
    let here = site(q.lon, q.lat, 50.0);
    let opts = SearchOpts { time_tolerance: Days::new(1e-10) };
    let (lo, hi) = (Degrees::new(q.lo), Degrees::new(q.hi));
    let deg = |t: f64| q.body.azimuth_at(&here, mjd(t)).value().to_degrees();
    let wrap = |x: f64| (x + 180.0).rem_euclid(360.0) - 180.0;
    let mdeg = |x: f64| ((x.rem_euclid(360.0)) * 1000.0).round() as i64;
    let pers = |v: Vec<Iv>| -> Vec<[i64; 2]> { v.iter().map(|p| [units(p.start, q.start), units(p.end, q.start)]).collect() };
    let mut first = None;
    let r = guard(|| {
        let n = (((q.end - q.start) / q.step).ceil() as usize).max(1);
        let samples: Vec<[i64; 2]> = (0..=n).map(|k| {
            let t = if k == n { q.end } else { q.start + q.step * k as f64 };
            [units(mjd(t), q.start), mdeg(deg(t))]
        }).collect();
        let cross = |b: Degrees| -> Vec<[i64; 4]> {
            az::azimuth_crossings(q.body, &here, win, b, opts).iter().map(|c| {
                let t = days(c.mjd);
                let rate = wrap(deg(t + 2.0 / 86400.0) - deg(t - 2.0 / 86400.0));
                // a crossing is located to within a fraction of a second: in azimuth that is what the body moves meanwhile
                let off = (wrap(deg(t) - b.value()).abs() - rate.abs() * 0.02).max(0.0);
                let truth = if rate.abs() < 2e-4 || rate.abs() > 60.0 { 0 } else if rate > 0.0 { 1 } else { -1 };
                [units(c.mjd, q.start), if c.direction == CrossingDirection::Rising { 1 } else { -1 }, (off * 1000.0).round() as i64, truth]
            }).collect()
        };
        let lc = cross(lo);
        first = lc.first().map(|c| q.start + c[0] as f64 / crate::alt::UNITS);
        let turns: Vec<[i64; 3]> = az::azimuth_extrema(q.body, &here, win, opts).iter().map(|e| {
            let off = wrap(e.azimuth.value() - deg(days(e.mjd))).abs();
            [units(e.mjd, q.start), if e.kind == AzimuthExtremumKind::Max { 1 } else { -1 }, (off * 1000.0).round() as i64]
        }).collect();
        json!({"ev": "query", "name": q.name, "len": units(mjd(q.end), q.start), "samples": samples, "lo": mdeg(q.lo), "hi": mdeg(q.hi),
            "locross": lc, "hicross": cross(hi), "inside": pers(az::azimuth_ranges(q.body, &here, win, lo, hi, opts)),
            "outside": pers(az::outside_azimuth_range(q.body, &here, win, lo, hi, opts)), "turns": turns,
            "info": json!({"lon": q.lon, "lat": q.lat, "start": format!("{:.12}", q.start), "lo": q.lo.to_string(), "hi": q.hi.to_string()}).to_string()})
    });
    match r {
        Ok(v) => (v, first),
        Err(p) => (json!({"ev": "panic", "name": q.name, "info": format!("{p}; site {},{} start {} end {} band {} {}", q.lon, q.lat, q.start, q.end, q.lo, q.hi)}), None),
    }
}

pub fn record_az(rec: &mut Rec, tier: &str, seed: u64) {
    use siderust::bodies::solar_system as ss;
    use siderust::coordinates::spherical::direction;
    let star = |ra: f64, dec: f64| -> Dyn { Dyn(Box::new(direction::ICRS::new(Degrees::new(ra), Degrees::new(dec)))) };
    let bodies: Vec<(&str, Dyn)> = vec![
        ("sun", Dyn(Box::new(ss::Sun))), ("moon", Dyn(Box::new(ss::Moon))), ("venus", Dyn(Box::new(ss::Venus))), ("jupiter", Dyn(Box::new(ss::Jupiter))), ("neptune", Dyn(Box::new(ss::Neptune))),
        ("sirius", star(101.287, -16.716)), ("polaris", star(37.95, 89.26)), ("acrux", star(186.65, -63.1)), ("vega", star(279.23, 38.78)), ("equator", star(200.0, 0.3)),
    ];
    let mut rng = Rng::new(seed ^ 0xA2);
    let n = if tier == "thorough" { 600 } else { 110 };
    struct Plan { body: usize, lon: f64, lat: f64, start: f64, len: f64, lo: f64, hi: f64 }
    let mut plans = Vec::new();
    for k in 0..n {
        let body = match k % 3 { 0 => 0, 1 => 1, _ => rng.below(bodies.len()) };
        // tropical latitudes see the Sun and Moon turn back; high latitudes see them go round
        let lat = match rng.below(4) { 0 => rng.range(-23.0, 23.0), 1 => *rng.pick(&[67.5, -70.0, 80.0, 88.0]), _ => rng.range(-65.0, 65.0) };
        let lon = rng.range(-180.0, 180.0);
        let lo = match rng.below(4) { 0 => rng.range(330.0, 360.0), 1 => rng.range(0.0, 360.0), _ => (rng.below(72) * 5) as f64 };
        let width = *rng.pick(&[0.5, 2.0, 10.0, 45.0, 90.0, 180.0, 270.0, 340.0]);
        let len = match rng.below(4) { 0 => rng.range(0.05, 0.5), 1 => 1.0, _ => rng.range(0.5, 2.5) };
        plans.push(Plan { body, lon, lat, start: rng.range(44000.0, 63000.0), len, lo, hi: (lo + width).rem_euclid(360.0) });
    }
    // bodies that pass close to the zenith, and turn back in azimuth on the way
    for k in 0..(if tier == "thorough" { 200 } else { 60 }) {
        let body = [0, 1, 2, 3, 4, 9][k % 6];
        let lat = if body == 9 { 0.5 + rng.f() * 3.0 } else { rng.range(-27.0, 27.0) };
        let lo = *rng.pick(&[0.0, 355.0, 60.0, 80.0, 89.0, 100.0, 170.0, 270.0]);
        let width = *rng.pick(&[2.0, 10.0, 90.0, 180.0]);
        plans.push(Plan { body, lon: rng.range(-180.0, 180.0), lat, start: rng.range(44000.0, 63000.0), len: rng.range(0.6, 2.2), lo, hi: (lo + width) % 360.0 });
    }
    let out: std::sync::Mutex<Vec<(usize, Vec<Value>)>> = std::sync::Mutex::new(Vec::new());
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if k >= plans.len() { break; }
                let p = &plans[k];
                let (name, body) = &bodies[p.body];
                let mut q = AQ { name, body, lon: p.lon, lat: p.lat, start: p.start, end: p.start + p.len, lo: p.lo, hi: p.hi, step: 1.0 / 288.0 };
                let mut lines = Vec::new();
                let (l, first) = az_line(&q);
                lines.push(l);
                if let Some(t) = first {
                    // a follow-up whose window opens a moment after a crossing returned earlier
                    q.start = t + 30.0 / 86400.0;
                    q.end = q.start + p.len.min(1.2);
                    lines.push(az_line(&q).0);
                    // one that closes a moment after it, a whole number of scan steps and a little more from its start
                    q.end = t + 7.0 / 86400.0;
                    q.start = q.end - (1 + k % 60) as f64 * 600.0 / 86400.0 - 12.0 / 86400.0;
                    lines.push(az_line(&q).0);
                }
                out.lock().unwrap().push((k, lines));
            });
        }
    });
    let mut o = out.into_inner().unwrap();
    o.sort_by_key(|x| x.0);
    for (_, ls) in o { for l in ls { rec.put(l); } }
}
