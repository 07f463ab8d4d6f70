//! Altitude event search: replay of AltSearch behaviours and recording of real-body traces.
use crate::common::*;
use crate::ensure;
use serde_json::{json, Value};
use siderust::bodies::solar_system as ss;
use siderust::coordinates::centers::Geodetic;
use siderust::coordinates::frames::ECEF;
use siderust::coordinates::spherical::direction;
use siderust::event::altitude::{self as al, AltitudeEventsExt, AltitudeProvider, CrossingDirection, CulminationKind, SearchOpts};
use siderust::qtty::*;
use siderust::time::{Interval, ModifiedJulianDate};

pub type Mjd = ModifiedJulianDate;
pub type Iv = Interval<Mjd>;
pub fn mjd(x: f64) -> Mjd { Mjd::new(x) }
pub fn days(t: Mjd) -> f64 { t.raw().value() }
pub fn site(lon: f64, lat: f64, h: f64) -> Geodetic<ECEF> {
    Geodetic::<ECEF>::new(Degrees::new(lon), Degrees::new(lat), Meters::new(h))
}

/// Piecewise half-cosine altitude through `knots` (time, altitude in degrees).
pub struct Scripted { pub knots: Vec<(f64, f64)>, pub hint: Option<Days>, pub linear: bool }
impl Scripted {
    pub fn alt(&self, t: f64) -> f64 {
        let k = &self.knots;
        if t <= k[0].0 { return k[0].1; }
        for w in k.windows(2) {
            if t <= w[1].0 {
                let x = (t - w[0].0) / (w[1].0 - w[0].0);
                if self.linear { return if x >= 1.0 { w[1].1 } else { w[0].1 + (w[1].1 - w[0].1) * x }; }
                let u = 0.5 - 0.5 * (std::f64::consts::PI * x).cos();
                return w[0].1 + (w[1].1 - w[0].1) * u;
            }
        }
        k[k.len() - 1].1
    }
    /// Time in slot `s` (0-based) at which the altitude equals `a`.
    pub fn time_of(&self, s: usize, a: f64) -> f64 {
        let (t0, a0) = self.knots[s];
        let (t1, a1) = self.knots[s + 1];
        let u = (a - a0) / (a1 - a0);
        if self.linear { return t0 + (t1 - t0) * u; }
        t0 + (t1 - t0) * (1.0 - 2.0 * u).acos() / std::f64::consts::PI
    }
}
impl AltitudeProvider for Scripted {
    fn altitude_at(&self, _o: &Geodetic<ECEF>, t: Mjd) -> Radians { Radians::new(self.alt(days(t)).to_radians()) }
    fn scan_step_hint(&self) -> Option<Days> { self.hint }
}
/// Time fraction of a half-cosine slot at which q/4 of the altitude change is done.
pub fn frac(q: i64) -> f64 { [0.0, 1.0 / 3.0, 0.5, 2.0 / 3.0, 1.0][q as usize] }
pub fn durations(shape: i64, n: usize) -> Vec<f64> {
    let pat: &[f64] = match shape {
        0 => &[7.0],
        1 => &[5.0, 9.0, 6.0, 8.0, 5.5],
        2 => &[13.0],
        3 => &[12.0],
        4 => &[26.0, 5.0, 31.0],
        5 => &[2.5, 3.0],
        6 => &[6.0, 3.0],
        _ => panic!("shape"),
    };
    (0..n).map(|i| pat[i % pat.len()] / 24.0).collect()
}
pub fn tol_of(t: i64) -> f64 { [1e-9, 1e-6, 1e-4][t as usize] }

struct Names { start: f64, end: f64, lo: Vec<f64>, hi: Vec<f64> }
impl Names {
    fn at(&self, n: i64) -> f64 {
        match n {
            0 => self.start,
            -1 => self.end,
            n if n > 100 => self.hi[(n - 101) as usize],
            n => self.lo[(n - 1) as usize],
        }
    }
}

pub fn cmp_periods(what: &str, got: &[Iv], want: &[(f64, f64)], eps: f64) -> Outcome {
    // a degenerate period (shorter than the time resolution) is no information
    let got: Vec<Iv> = got.iter().filter(|p| days(p.end) - days(p.start) > 1e-6).cloned().collect();
    let show: Vec<(f64, f64)> = got.iter().map(|p| (days(p.start), days(p.end))).collect();
    ensure!(got.len() == want.len(), what, "{what}: {} periods returned, {} expected\n got {show:?}\n want {want:?}", got.len(), want.len());
    for (i, (g, w)) in show.iter().zip(want).enumerate() {
        ensure!((g.0 - w.0).abs() <= eps && (g.1 - w.1).abs() <= eps, what,
            "{what}: period {i} is {g:?}, expected {w:?} (eps {eps:e} d)");
    }
    Ok(())
}

pub fn replay_periods(v: &Value) -> Outcome { replay_alt(v, true) }
pub fn replay_events(v: &Value) -> Outcome { replay_alt(v, false) }

fn replay_alt(v: &Value, periods: bool) -> Outcome {
    let path: Vec<f64> = ints(&v["path"]).iter().map(|l| *l as f64 - 90.0).collect();
    let (q0, q1) = (i(v, "q0"), i(v, "q1"));
    let c = &v["cfg"];
    let (shape, hint, tol) = (i(c, "shape"), i(c, "hint"), tol_of(i(c, "tol")));
    let thr: Vec<f64> = ints(&v["thr"]).iter().map(|l| *l as f64 - 90.0).collect();
    let n = path.len() - 1;
    let dur = durations(shape, n);
    // exact-threshold behaviours are replayed on exactly representable times
    let lin = b(v, "onthr");
    let mut t = if lin { 60123.25 } else { 60123.2071 + shape as f64 * 11.03 };
    let mut knots = vec![(t, path[0])];
    for k in 0..n { t += dur[k]; knots.push((t, path[k + 1])); }
    let p = Scripted { knots, hint: if hint == 0 { None } else { Some(Days::new(if hint == 3 { 0.125 } else { hint as f64 / 12.0 })) }, linear: lin };
    let start = p.knots[0].0 + dur[0] * if lin { q0 as f64 / 4.0 } else { frac(q0) };
    let end = p.knots[n - 1].0 + dur[n - 1] * if lin { q1 as f64 / 4.0 } else { frac(q1) };
    let win = Iv::new(mjd(start), mjd(end));
    let obs = site(12.0, 41.0, 100.0);
    let opts = SearchOpts { time_tolerance: Days::new(tol) };
    let eps = 2e-8 + 8.0 * tol;
    let cross_times = |o: &Value, a: f64| -> Vec<f64> {
        arr(o, "cross").iter().map(|x| { let k = i(x, "slot") as usize - 1; if b(x, "knot") { p.knots[k].0 } else { p.time_of(k, a) } }).collect()
    };
    let names = Names { start, end, lo: cross_times(&v["lo"], thr[0]), hi: cross_times(&v["hi"], thr[1]) };
    for (o, a, times, off) in [(&v["lo"], thr[0], &names.lo, 0i64), (&v["hi"], thr[1], &names.hi, 100)] {
        if !periods {
        let mut got = al::crossings(&p, &obs, win, Degrees::new(a), opts);
        if lin { got.retain(|c| days(c.mjd) - start > 1e-6 && end - days(c.mjd) > 1e-6); }
        let want = arr(o, "cross");
        let show: Vec<_> = got.iter().map(|c| (days(c.mjd), c.direction)).collect();
        ensure!(got.len() == want.len(), "crossings", "crossings at {a} deg: got {show:?}, expected times {times:?}");
        for (k, (g, w)) in got.iter().zip(want).enumerate() {
            let dir = if b(w, "up") { CrossingDirection::Rising } else { CrossingDirection::Setting };
            ensure!(g.direction == dir, "crossings", "crossing {k} at {a} deg labelled {:?}, expected {dir:?}", g.direction);
            ensure!((days(g.mjd) - times[k]).abs() <= eps, "crossings", "crossing {k} at {a} deg at {}, expected {}", days(g.mjd), times[k]);
            cov(if b(w, "up") { "rising" } else { "setting" });
        }
        let mut g2 = AltitudeEventsExt::crossings(&p, &obs, win, Degrees::new(a), opts);
        if lin { g2.retain(|c| days(c.mjd) - start > 1e-6 && end - days(c.mjd) > 1e-6); }
        ensure!(g2.len() == got.len() && g2.iter().zip(&got).all(|(x, y)| x.mjd == y.mjd && x.direction == y.direction), "crossings", "method form disagrees with function form");
            continue;
        }
        let per = |k: &str| -> Vec<(f64, f64)> {
            arr(o, k).iter().map(|x| { let x = ints(x); let f = |n: i64| names.at(if n > 0 { n + off } else { n }); (f(x[0]), f(x[1])) }).collect()
        };
        let (above, below) = (per("above"), per("below"));
        cmp_periods("above", &al::above_threshold(&p, &obs, win, Degrees::new(a), opts), &above, eps)?;
        cmp_periods("below", &al::below_threshold(&p, &obs, win, Degrees::new(a), opts), &below, eps)?;
        cmp_periods("above", &AltitudeEventsExt::above_threshold(&p, &obs, win, Degrees::new(a), opts), &above, eps)?;
        cmp_periods("below", &AltitudeEventsExt::below_threshold(&p, &obs, win, Degrees::new(a), opts), &below, eps)?;
        if above.is_empty() { cov("never_above") }
        if below.is_empty() { cov("always_above") }
        cov_n("periods", (above.len() + below.len()) as u64);
    }
    if periods {
    let band: Vec<(f64, f64)> = arr(v, "rng").iter().map(|x| { let x = ints(x); (names.at(x[0]), names.at(x[1])) }).collect();
    let (lo, hi) = (Degrees::new(thr[0]), Degrees::new(thr[1]));
    cmp_periods("band", &al::altitude_ranges(&p, &obs, win, lo, hi, opts), &band, eps)?;
    cmp_periods("band", &AltitudeEventsExt::altitude_ranges(&p, &obs, win, lo, hi, opts), &band, eps)?;
    cov_n("band_periods", band.len() as u64);
    } else if !b(v, "plateau") {
        let got = al::culminations(&p, &obs, win, opts);
        let want: Vec<(f64, f64, bool)> = arr(v, "culm").iter().map(|x| { let k = i(x, "knot") as usize - 1; (p.knots[k].0, p.knots[k].1, b(x, "max")) }).collect();
        // an extremum exactly on the window edge may or may not be listed
        let inside: Vec<_> = got.iter().filter(|g| days(g.mjd) - start > 1e-3 && end - days(g.mjd) > 1e-3).collect();
        let show: Vec<_> = got.iter().map(|g| (days(g.mjd), g.altitude.value(), g.kind)).collect();
        ensure!(inside.len() == want.len(), "culminations", "culminations: got {show:?}, expected {want:?}");
        for (g, w) in inside.iter().zip(&want) {
            let kind = if w.2 { CulminationKind::Max } else { CulminationKind::Min };
            ensure!(g.kind == kind, "culminations", "culmination at {} labelled {:?}, expected {kind:?}", w.0, g.kind);
            ensure!((days(g.mjd) - w.0).abs() < 2e-4 + 8.0 * tol, "culminations", "culmination at {}, expected {}", days(g.mjd), w.0);
            ensure!((g.altitude.value() - w.1).abs() < 1e-3, "culminations", "culmination altitude {}, expected {}", g.altitude.value(), w.1);
        }
        for g in &got {
            ensure!(days(g.mjd) >= start && days(g.mjd) <= end, "culminations", "culmination outside the window");
        }
        cov_n("culminations", want.len() as u64);
    }
    Ok(())
}


// --------------------------------------------------------------------------------------
// Traces of real bodies
// --------------------------------------------------------------------------------------
/// trace time unit: 0.01 s from the window start
pub const UNITS: f64 = 8_640_000.0;
pub fn units(t: Mjd, start: f64) -> i64 { ((days(t) - start) * UNITS).round().clamp(-2.0e9, 2.0e9) as i64 }

pub struct Query<'a> {
    pub name: &'a str,
    pub body: &'a dyn AltitudeProvider,
    pub site: Geodetic<ECEF>,
    pub start: f64,
    pub end: f64,
    pub lo: f64,
    pub hi: f64,
    pub tol: f64,
    pub step: f64,
    /// altitudes this close (degrees) to a threshold do not decide a side
    pub dead: f64,
    /// further times to sample
    pub also: Vec<f64>,
}

/// Perform all altitude queries and return the trace line, plus the first crossing time found.
pub fn query_line(q: &Query) -> (Value, Option<f64>) {
    let win = Iv::new(mjd(q.start), mjd(q.end));
    let opts = SearchOpts { time_tolerance: Days::new(q.tol) };
    let (lo, hi) = (Degrees::new(q.lo), Degrees::new(q.hi));
    let pers = |v: Vec<Iv>| -> Vec<[i64; 2]> { v.iter().map(|p| [units(p.start, q.start), units(p.end, q.start)]).collect() };
    let mut first = None;
    let r = guard(|| {
        let n = (((q.end - q.start) / q.step).ceil() as usize).max(1);
        let mut samples = Vec::new();
        let mut alts = Vec::new();
        let mut times: Vec<f64> = (0..=n).map(|k| if k == n { q.end } else { q.start + q.step * k as f64 }).chain(q.also.iter().copied().filter(|t| *t >= q.start && *t <= q.end)).collect();
        times.sort_by(f64::total_cmp);
        for t in times {
            let a = q.body.altitude_at(&q.site, mjd(t)).value().to_degrees();
            let side = |thr: f64| -> i64 { if a > thr + q.dead { 1 } else if a < thr - q.dead { -1 } else { 0 } };
            samples.push(json!([units(mjd(t), q.start), side(q.lo), side(q.hi)]));
            alts.push((t, a));
        }
        // monotone runs between samples: +1 rising, -1 falling, 0 too flat to tell
        let runs: Vec<Value> = alts.windows(2).map(|w| {
            let d = w[1].1 - w[0].1;
            json!([units(mjd(w[0].0), q.start), units(mjd(w[1].0), q.start), if d > 0.004 { 1 } else if d < -0.004 { -1 } else { 0 }])
        }).collect();
        let cross = |thr: Degrees| -> Vec<Value> {
            al::crossings(q.body, &q.site, win, thr, opts).iter().map(|c| {
                let a = q.body.altitude_at(&q.site, c.mjd).value().to_degrees();
                json!([units(c.mjd, q.start), if c.direction == CrossingDirection::Rising { 1 } else { -1 }, ((a - thr.value()) * 1e5).round().clamp(-1e9, 1e9) as i64])
            }).collect()
        };
        first = al::crossings(q.body, &q.site, win, lo, opts).first().map(|c| days(c.mjd));
        let culm: Vec<Value> = al::culminations(q.body, &q.site, win, opts).iter().map(|c| {
            let a = q.body.altitude_at(&q.site, c.mjd).value().to_degrees();
            json!([units(c.mjd, q.start), if c.kind == CulminationKind::Max { 1 } else { -1 }, ((a - c.altitude.value()) * 1e5).round().clamp(-1e9, 1e9) as i64])
        }).collect();
        json!({"ev": "query", "name": q.name, "len": units(mjd(q.end), q.start), "samples": samples, "runs": runs,
            "lo": {"cross": cross(lo), "above": pers(al::above_threshold(q.body, &q.site, win, lo, opts)), "below": pers(al::below_threshold(q.body, &q.site, win, lo, opts))},
            "hi": {"cross": cross(hi), "above": pers(al::above_threshold(q.body, &q.site, win, hi, opts)), "below": pers(al::below_threshold(q.body, &q.site, win, hi, opts))},
            "band": pers(al::altitude_ranges(q.body, &q.site, win, lo, hi, opts)), "culm": culm,
            "info": json!({"lon": q.site.lon.value(), "lat": q.site.lat.value(), "start": format!("{:.12}", q.start), "lo": q.lo.to_string(), "hi": q.hi.to_string(), "tol": q.tol.to_string()}).to_string()})
    });
    match r {
        Ok(v) => (v, first),
        Err(p) => (json!({"ev": "panic", "name": q.name, "info": format!("{p}; site {},{} start {} end {} lo {} hi {}", q.site.lon.value(), q.site.lat.value(), q.start, q.end, q.lo, q.hi)}), None),
    }
}

pub fn bodies() -> Vec<(&'static str, Box<dyn AltitudeProvider + Sync>)> {
    let star = |ra: f64, dec: f64| -> Box<dyn AltitudeProvider + Sync> { Box::new(direction::ICRS::new(Degrees::new(ra), Degrees::new(dec))) };
    vec![
        ("sun", Box::new(ss::Sun)), ("moon", Box::new(ss::Moon)), ("mercury", Box::new(ss::Mercury)), ("venus", Box::new(ss::Venus)),
        ("mars", Box::new(ss::Mars)), ("jupiter", Box::new(ss::Jupiter)), ("saturn", Box::new(ss::Saturn)),
        ("uranus", Box::new(ss::Uranus)), ("neptune", Box::new(ss::Neptune)),
        ("sirius", star(101.287, -16.716)), ("polaris", star(37.95, 89.26)), ("acrux", star(186.65, -63.1)), ("vega", star(279.23, 38.78)),
    ]
}

pub fn record_real(rec: &mut Rec, tier: &str, seed: u64) {
    let mut rng = Rng::new(seed);
    let bodies = bodies();
    let n = if tier == "thorough" { 700 } else { 130 };
    let sites = [(0.0, 0.0), (-17.88, 28.76), (23.7, 69.6), (-68.0, -54.8), (100.0, 89.9), (179.9, -77.8), (-179.95, 51.5), (139.7, 66.5), (0.0, -90.0)];
    struct Plan { body: usize, lon: f64, lat: f64, start: f64, len: f64, lo: f64, hi: f64, tol: f64, step: f64, dead: f64, also: Vec<f64> }
    let mut plans = Vec::new();
    for k in 0..n {
        // the Sun and the Moon have search paths of their own
        let body = match k % 4 { 0 => 0, 1 => 1, _ => rng.below(bodies.len()) };
        let (lon, lat) = if rng.below(3) == 0 { (rng.range(-180.0, 180.0), rng.range(-89.0, 89.0)) } else { *rng.pick(&sites) };
        let start = rng.range(44000.0, 63000.0);
        let len = match rng.below(5) { 0 => rng.range(0.02, 0.4), 1 => 1.0, 2 => rng.range(0.4, 3.0), _ => if body == 0 { rng.range(2.0, 30.0) } else { rng.range(2.0, 6.0) } };
        let lo = *rng.pick(&[-18.0, -12.0, -6.0, -0.833, 0.0, 10.0, 23.4, -30.0]);
        let hi = lo + *rng.pick(&[2.0, 6.0, 15.0, 40.0]);
        let tol = *rng.pick(&[1e-9, 1e-9, 1e-7, 1e-5]);
        plans.push(Plan { body, lon, lat, start, len, lo, hi, tol, step: if len > 8.0 { 1.0 / 48.0 } else { 1.0 / 144.0 }, dead: 0.02, also: vec![] });
    }
    // systematically: every part of the UTC day for the ends of the window x longitudes
    for (k, lon) in (0..12).map(|k| (k, -179.0 + 30.0 * k as f64)) {
        for h in 0..8 {
            let start = (rng.range(44000.0, 63000.0)).floor() + (h as f64 + rng.f()) / 8.0;
            let lat = *rng.pick(&[-52.0, -31.0, 0.5, 28.0, 47.0, 60.0]);
            let lo = *rng.pick(&[-12.0, -0.833, 0.0, 10.0, -40.0]);
            plans.push(Plan { body: if (k + h) % 4 == 3 { 1 } else { 0 }, lon, lat, start, len: rng.range(0.3, 1.3), lo, hi: lo + 15.0, tol: 1e-9, step: 1.0 / 144.0, dead: 0.02, also: vec![] });
        }
    }
    // grazing: a threshold just under the body's highest or just over its lowest altitude
    for k in 0..if tier == "thorough" { 420 } else { 84 } {
        let body = k % bodies.len();
        let (lon, lat) = (rng.range(-180.0, 180.0), rng.range(-75.0, 75.0));
        let start = rng.range(44000.0, 60000.0);
        let way = if k / bodies.len() % 2 == 0 { 1.0 } else { -1.0 };
        let at = |t: f64| way * bodies[body].1.altitude_at(&site(lon, lat, 50.0), mjd(t)).value().to_degrees();
        let top = (0..=144).map(|j| start + 0.2 + j as f64 / 144.0).max_by(|a, b| at(*a).total_cmp(&at(*b))).unwrap();
        let (mut a, mut c) = (top - 0.007, top + 0.007);
        for _ in 0..40 {
            let (m, n) = (a + (c - a) / 3.0, c - (c - a) / 3.0);
            if at(m) < at(n) { a = m } else { c = n }
        }
        let by = 10f64.powf(rng.range(-4.0, -1.0));
        let peak = 0.5 * (a + c);
        let graze = way * (at(peak) - by);
        if graze.abs() > 89.0 { continue; }
        // the peak, and times on both sides of it that the threshold has let go of
        let mut also = vec![peak];
        for side in [-1.0, 1.0] { if let Some(d) = (1..60).map(|j| 1e-5 * 1.25f64.powi(j)).find(|d| at(peak + side * d) < at(peak) - 1.3 * by) { also.push(peak + side * d); } }
        if also.len() < 3 || also[2] - also[1] < 3e-4 { continue; }
        let (lo, hi) = if k % 3 == 0 { ((graze - 15.0).max(-89.9), graze) } else { (graze, (graze + 15.0).min(89.9)) };
        plans.push(Plan { body, lon, lat, start, len: 1.4, lo, hi, tol: 1e-9, step: 1.0 / 72.0, dead: by / 5.0, also });
    }
    let out: std::sync::Mutex<Vec<(usize, Vec<Value>)>> = std::sync::Mutex::new(Vec::new());
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if k >= plans.len() { break; }
                let p = &plans[k];
                let (name, body) = &bodies[p.body];
                let mut q = Query { name, body: body.as_ref(), site: site(p.lon, p.lat, 50.0), start: p.start, end: p.start + p.len, lo: p.lo, hi: p.hi, tol: p.tol, step: p.step, dead: p.dead, also: p.also.clone() };
                let mut lines = Vec::new();
                let (l, first) = query_line(&q);
                lines.push(l);
                if let Some(t) = first {
                    // history: a follow-up query whose window opens at an event returned earlier,
                    // and one whose window closes there
                    q.start = t;
                    q.end = t + p.len.min(1.7);
                    lines.push(query_line(&q).0);
                    if t - p.start > 0.01 {
                        q.start = p.start;
                        q.end = t;
                        lines.push(query_line(&q).0);
                    }
                }
                out.lock().unwrap().push((k, lines));
            });
        }
    });
    let mut o = out.into_inner().unwrap();
    o.sort_by_key(|x| x.0);
    for (_, ls) in o { for l in ls { rec.put(l); } }
}
