//! SPICE kernels: pools of SPK files (SpkPool), segment stacks (SpkStack), text kernels (SpiceText).
use crate::common::*;
use crate::{bail, ensure};
use serde_json::Value;
use siderust::ephemeris::{DynEphemeris, MajorPlanet, PlanetPoint, RuntimeEphemeris};
use siderust::formats::spice::{spk, SpiceError, SpkKernel, SpkKernelSet};
use siderust::spice::{SpiceContext, SpiceContextError};
use siderust::time::JulianDate;

const EMRAT: f64 = 81.300_569_074_190_62;

#[derive(Clone, Debug)]
pub struct Seg { pub t: i32, pub c: i32, pub a: f64, pub b: f64, pub unsup: bool, pub gid: usize }
/// State of segment `gid` relative to its centre at `et` seconds.
fn base(gid: usize) -> [f64; 3] { let g = gid as f64; [1.0e5 * 3f64.powf(g) + 17.0 * g, -4.0e4 * 2f64.powf(g) - 3.0, 900.0 * 5f64.powf(g)] }
fn rate(gid: usize) -> [f64; 3] { let g = gid as f64; [0.01 * (g + 1.0), -0.002 * 2f64.powf(g), 0.003 * (g * g + 1.0)] }
pub fn state_of(gid: usize, et: f64) -> [f64; 6] {
    let (p, v) = (base(gid), rate(gid));
    let a = acc(gid);
    let q = |k: usize| p[k] + v[k] * et + 0.5 * a[k] * et * et;
    let w = |k: usize| v[k] + a[k] * et;
    [q(0), q(1), q(2), w(0), w(1), w(2)]
}
fn acc(gid: usize) -> [f64; 3] { let g = gid as f64; [1.0e-7 * (g + 1.0), -2.0e-7 * (g + 1.5), 3.0e-8 * (g * g + 2.0)] }

fn payload(s: &Seg, dtype: i32) -> Vec<f64> {
    let mut w = Vec::new();
    let g = s.gid;
    match dtype {
        2 | 3 => {
            let nrec = 1 + g % 3;
            let len = (s.b - s.a) / nrec as f64;
            for r in 0..nrec {
                let mid = s.a + (r as f64 + 0.5) * len;
                let rad = len / 2.0;
                w.push(mid);
                w.push(rad);
                let x = state_of(g, mid);
                let a = acc(g);
                for i in 0..3 { w.push(x[i] + a[i] * rad * rad / 4.0); w.push(x[i + 3] * rad); w.push(a[i] * rad * rad / 4.0); }
                if dtype == 3 { for i in 0..3 { w.push(x[i + 3]); w.push(a[i] * rad); w.push(0.0); } }
            }
            let rsize = if dtype == 2 { 11.0 } else { 20.0 };
            w.extend([s.a, len, rsize, nrec as f64]);
        }
        9 | 13 => {
            let n = 4 + g % 2;
            // uneven epochs, exact at both ends
            let ep: Vec<f64> = (0..n).map(|k| { let u = k as f64 / (n - 1) as f64; s.a + (s.b - s.a) * (0.6 * u + 0.4 * u * u) }).collect();
            for e in &ep { w.extend(state_of(g, *e)); }
            w.extend(&ep);
            w.extend([if dtype == 9 { 2.0 } else { 2.0 }, n as f64]);
        }
        _ => w.extend([1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 1.0, 1.0]),
    }
    w
}

/// A DAF/SPK file: `per_rec` summaries per summary record, big- or little-endian.
pub fn spk_file(segs: &[(Seg, i32)], per_rec: usize, be: bool) -> Vec<u8> {
    let nrec = segs.len().div_ceil(per_rec).max(1);
    let i32b = |v: i32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let f64b = |v: f64| if be { v.to_be_bytes() } else { v.to_le_bytes() };
    let mut buf = vec![0u8; 1024 * (1 + nrec)];
    buf[0..8].copy_from_slice(b"DAF/SPK ");
    buf[8..12].copy_from_slice(&i32b(2));
    buf[12..16].copy_from_slice(&i32b(6));
    buf[76..80].copy_from_slice(&i32b(2));
    buf[80..84].copy_from_slice(&i32b(1 + nrec as i32));
    let mut data: Vec<f64> = Vec::new();
    let first_word = 128 * (1 + nrec) + 1;
    for r in 0..nrec {
        let off = 1024 * (1 + r);
        let chunk = &segs[(r * per_rec).min(segs.len())..((r + 1) * per_rec).min(segs.len())];
        let next = if r + 1 < nrec { (r + 3) as f64 } else { 0.0 };
        let prev = if r > 0 { (r + 1) as f64 } else { 0.0 };
        buf[off..off + 8].copy_from_slice(&f64b(next));
        buf[off + 8..off + 16].copy_from_slice(&f64b(prev));
        buf[off + 16..off + 24].copy_from_slice(&f64b(chunk.len() as f64));
        for (k, (s, dt)) in chunk.iter().enumerate() {
            let p = payload(s, *dt);
            let w0 = first_word + data.len();
            let w1 = w0 + p.len() - 1;
            data.extend(p);
            let o = off + 24 + 40 * k;
            buf[o..o + 8].copy_from_slice(&f64b(s.a));
            buf[o + 8..o + 16].copy_from_slice(&f64b(s.b));
            for (j, v) in [s.t, s.c, 1, *dt, w0 as i32, w1 as i32].into_iter().enumerate() {
                buf[o + 16 + 4 * j..o + 20 + 4 * j].copy_from_slice(&i32b(v));
            }
        }
    }
    for v in data { buf.extend(f64b(v)); }
    while buf.len() % 1024 != 0 { buf.push(0); }
    buf
}

fn parse_files(v: &Value, unit: f64) -> Vec<Vec<Seg>> {
    let mut g = 0;
    arr(v, "files").iter().map(|f| f.as_array().unwrap().iter().map(|s| {
        g += 1;
        Seg { t: i(s, "t") as i32, c: i(s, "c") as i32, a: i(s, "a") as f64 * unit, b: i(s, "b") as f64 * unit, unsup: b(s, "u"), gid: g - 1 }
    }).collect()).collect()
}
fn hash(v: &Value) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in v.to_string().bytes() { h = (h ^ c as u64).wrapping_mul(0x100000001b3); }
    h ^ (h >> 29)
}
fn sum(f: &[Seg], p: &[i64], et: f64) -> [f64; 6] {
    let mut out = [0.0; 6];
    for x in p {
        let s = state_of(f[(x.unsigned_abs() - 1) as usize].gid, et);
        for k in 0..6 { out[k] += x.signum() as f64 * s[k]; }
    }
    out
}
fn close(a: &[f64], b: &[f64], tol: f64) -> bool { a.iter().zip(b).all(|(x, y)| (x - y).abs() <= tol * (1.0 + y.abs() * 1e-3)) }

// --- S01 -------------------------------------------------------------------
/// Compare one result against the admissible answers.
fn judge(what: &str, got: &Result<[f64; 6], &'static str>, want: &[(String, Option<[f64; 6]>)]) -> Outcome {
    for (s, x) in want {
        match (got, x) {
            (Ok(g), Some(w)) if close(g, w, 1e-6) => return Ok(()),
            (Err(e), None) if e == s => return Ok(()),
            _ => {}
        }
    }
    mm("answer", format!("{what}: got {got:?}, admissible {want:?}"))
}
fn err_name(e: &SpiceError) -> &'static str {
    match e {
        SpiceError::NoChain { .. } => "nochain",
        SpiceError::OutOfCoverage { .. } => "coverage",
        SpiceError::UnsupportedDataType { .. } => "unsupported",
        _ => "other",
    }
}
pub fn replay_pool(v: &Value) -> Outcome {
    let unit = 1000.0;
    let files = parse_files(v, unit);
    let h = hash(&v["files"]);
    let mut ctx = SpiceContext::new();
    let mut kers = Vec::new();
    for (k, f) in files.iter().enumerate() {
        let typed: Vec<(Seg, i32)> = f.iter().map(|s| {
            let dt = if s.unsup { [5, 1, 21][(h as usize + s.gid) % 3] } else { [2, 3, 9, 13][((h >> 4) as usize + 3 * s.gid) % 4] };
            (s.clone(), dt)
        }).collect();
        let bytes = spk_file(&typed, [25, 1, 2][((h >> 8) as usize + k) % 3], (h >> 12) & 1 == 1);
        if (h >> 12) & 1 == 1 { cov("big_endian_files"); }
        match ctx.load_bytes(format!("f{k}"), bytes.clone()) {
            Ok(()) => {}
            Err(e) => bail!("load", "well-formed SPK file {k} rejected: {e}"),
        }
        kers.push(SpkKernel::from_bytes(bytes).map_err(|e| Mismatch { key: "load".into(), msg: format!("SpkKernel::from_bytes: {e}") })?);
    }
    ensure!(ctx.kernel_set().spk_count() == files.len(), "count", "spk_count {}", ctx.kernel_set().spk_count());
    let bodies = [0, 3, 301, 399];
    let table = |w: &Value, get: &dyn Fn(&Value) -> usize| -> std::collections::HashMap<(i64, i64, i64), Vec<(String, usize, Vec<i64>)>> {
        w.as_array().unwrap().iter().map(|x| {
            let q = ints(&x["q"]);
            ((q[0], q[1], q[2]), arr(x, "w").iter().map(|a| (st(a, "s").to_string(), get(a), ints(&a["p"]))).collect())
        }).collect()
    };
    let per: Vec<_> = arr(v, "per").iter().enumerate().map(|(k, w)| table(w, &move |_| k + 1)).collect();
    let pool = table(&v["pool"], &|a| i(a, "k") as usize);
    for e in 0..=4i64 {
        let et = e as f64 * unit;
        for &t in &bodies {
            for &c in &bodies {
                if t == c {
                    match ctx.state_naif(t, c, et) {
                        Ok(s) => ensure!(s == [0.0; 6], "self", "state of {t} relative to itself: {s:?}"),
                        Err(e) => bail!("self", "state of {t} relative to itself: {e}"),
                    }
                    continue;
                }
                let (lo, hi, sg) = if t < c { (t, c, 1.0) } else { (c, t, -1.0) };
                if !(1..=3).contains(&e) { continue; }
                let key = (lo as i64, hi as i64, e);
                let adm = |tab: &std::collections::HashMap<(i64, i64, i64), Vec<(String, usize, Vec<i64>)>>| -> Vec<(String, Option<[f64; 6]>)> {
                    match tab.get(&key) {
                        None => vec![("nochain".into(), None)],
                        Some(ws) => ws.iter().map(|(s, k, p)| (s.clone(), (s == "ok").then(|| sum(&files[k - 1], p, et).map(|x| x * sg)))).collect(),
                    }
                };
                for (k, ker) in kers.iter().enumerate() {
                    let got = ker.state(t, c, et).map_err(|e| err_name(&e));
                    cov(if got.is_ok() { "file_answers" } else { "file_refusals" });
                    judge(&format!("file {k}: state({t}, {c}, {et})"), &got, &adm(&per[k]))?;
                }
                let got = ctx.state_naif(t, c, et).map_err(|e| match &e { SpiceContextError::Kernel(k) => match err_name(k) { "coverage" => "nochain", x => x }, _ => "other" });
                cov(if got.is_ok() { "pool_answers" } else { "pool_refusals" });
                judge(&format!("pool: state_naif({t}, {c}, {et})"), &got, &adm(&pool))?;
            }
        }
    }
    ensure!(ctx.state_naif(301, 0, f64::NAN).is_err(), "nan", "a state was answered at a NaN epoch");
    ensure!(ctx.state_naif(301, 777, 1.0).is_err() && ctx.state_naif(777, 0, 1.0).is_err(), "ghost", "a state was answered for an unknown body");
    Ok(())
}

// --- S03 -------------------------------------------------------------------
const DAY: f64 = 86400.0;
fn chain(p: &[Value], flat: &[Seg], et: f64) -> [f64; 3] {
    let mut out = [0.0; 3];
    for x in p {
        let s = state_of(flat[x[0].as_i64().unwrap() as usize - 1].gid, et);
        let k = match x[1].as_str().unwrap() { "+" => 1.0, _ => -1.0 / EMRAT };
        for j in 0..3 { out[j] += k * s[j]; }
    }
    out
}
fn ecl(p: [f64; 3]) -> [f64; 3] {
    let e = (84381.406f64 / 3600.0).to_radians();
    [p[0], e.cos() * p[1] + e.sin() * p[2], -e.sin() * p[1] + e.cos() * p[2]]
}
pub fn replay_stack(v: &Value) -> Outcome {
    let files = parse_files(v, DAY);
    let h = hash(&v["files"]);
    let mut set = SpkKernelSet::default();
    let mut flat: Vec<Seg> = Vec::new();
    let mut indexed = Vec::new();
    let mut count = 0;
    for (k, f) in files.iter().enumerate() {
        let typed: Vec<(Seg, i32)> = f.iter().map(|s| (s.clone(), if s.unsup { [13, 9, 5][(h as usize + s.gid) % 3] } else { 2 + ((h as usize / 16 + s.gid) % 2) as i32 })).collect();
        let bytes = spk_file(&typed, [25, 1, 2][((h >> 8) as usize + k) % 3], (h >> 12) & 1 == 1);
        let acc = v["acc"][k].as_bool().unwrap();
        match set.push_bytes(&bytes) {
            Ok(()) => ensure!(acc, "accept", "file {k} without supported segments accepted"),
            Err(e) => ensure!(!acc, "accept", "file {k} rejected: {e}"),
        }
        if acc {
            count += f.iter().filter(|s| !s.unsup).count();
            indexed.extend(spk::parse_indexed_segments(&bytes).map_err(|e| Mismatch { key: "accept".into(), msg: format!("parse_indexed_segments: {e}") })?);
        }
        flat.extend(f.iter().filter(|s| !s.unsup).cloned());
    }
    ensure!(set.segment_count() == count, "count", "{} segments, expected {count}", set.segment_count());
    let mut res = std::collections::HashMap::new();
    for r in arr(v, "res") {
        let (hh, t) = (i(r, "h"), i(r, "t"));
        let et = (hh as f64 + 0.5) * DAY;
        res.insert((t, hh), b(r, "ok").then(|| chain(arr(r, "p"), &flat, et)));
    }
    let mut keys: Vec<_> = res.keys().copied().collect();
    keys.sort_unstable();
    let jd = |hh: i64| JulianDate::new(2_451_545.0 + hh as f64 + 0.5);
    let sub = |a: [f64; 3], b: [f64; 3]| [a[0] - b[0], a[1] - b[1], a[2] - b[2]];
    macro_rules! xyz { ($d:expr) => {{ let d = $d; [d.x().value(), d.y().value(), d.z().value()] }} }
    for &(t, hh) in &keys {
        for &(o, h2) in &keys {
            if h2 != hh { continue; }
            let want = match (&res[&(t, hh)], &res[&(o, hh)]) { (Some(a), Some(b)) => Some(sub(*a, *b)), _ => None };
            let got = set.try_geometric_state(t as i32, o as i32, jd(hh));
            match (got, want) {
                (Ok(g), Some(w)) => { cov("stack_answers"); let g = xyz!(g); ensure!(close(&g, &w, 1e-2), "state", "try_geometric_state({t},{o}) at day {hh}.5: {g:?}, expected {w:?}") }
                (Err(_), None) => cov("stack_refusals"),
                (Ok(g), None) => bail!("state", "try_geometric_state({t},{o}) at day {hh}.5 answered {:?}, expected an error", xyz!(g)),
                (Err(e), Some(w)) => bail!("state", "try_geometric_state({t},{o}) at day {hh}.5 failed ({e}), expected {w:?}"),
            }
        }
    }
    // Mars-system barycentre seen from the Earth
    for f in arr(v, "fast") {
        let hh = i(f, "h");
        let et = (hh as f64 + 0.5) * DAY;
        let ff = &f["f"];
        let fast = b(ff, "ok").then(|| sub(chain(arr(ff, "t"), &flat, et), chain(arr(ff, "o"), &flat, et)));
        let gen = match (res.get(&(4, hh)).copied().flatten(), res.get(&(399, hh)).copied().flatten()) { (Some(a), Some(b)) => Some(sub(a, b)), _ => None };
        match set.try_major_planet_geocentric(MajorPlanet::Mars, PlanetPoint::SystemBarycenter, jd(hh)) {
            Ok(g) => { cov("barycentre_answers"); let g = xyz!(g); ensure!(fast.is_some_and(|w| close(&g, &w, 1e-2)) || gen.is_some_and(|w| close(&g, &w, 1e-2)), "barycentre", "barycentre at day {hh}.5: {g:?}, expected {fast:?} or {gen:?}") }
            Err(e) => ensure!(fast.is_none(), "barycentre", "barycentre at day {hh}.5 failed ({e}), expected {fast:?}"),
        }
    }
    // the same segments behind RuntimeEphemeris
    let rt = RuntimeEphemeris::from_indexed_segments(indexed);
    let has_earth = flat.iter().any(|s| s.t == 399 && s.c == 3);
    let mut edge = std::collections::HashMap::new();
    for e in arr(v, "edge") {
        let hh = i(e, "h");
        let n = i(e, "i");
        if n > 0 {
            let s = state_of(flat[n as usize - 1].gid, (hh as f64 + 0.5) * DAY);
            edge.insert((i(e, "t"), hh), s);
        }
    }
    let au = 149_597_870.7;
    let mut hs: Vec<i64> = keys.iter().map(|k| k.1).collect();
    hs.dedup(); hs.sort_unstable(); hs.dedup();
    for hh in hs {
        let p3 = |s: &[f64; 6]| [s[0], s[1], s[2]];
        let (sun, emb, moon, earth) = (edge.get(&(10, hh)), edge.get(&(3, hh)), edge.get(&(301, hh)), edge.get(&(399, hh)));
        let scale = |a: [f64; 3], k: f64| [a[0] * k, a[1] * k, a[2] * k];
        let add = |a: [f64; 3], b: [f64; 3]| [a[0] + b[0], a[1] + b[1], a[2] + b[2]];
        let fall_back_ok = has_earth && earth.is_none();
        let e_bary = match (emb, earth, moon) {
            (Some(m), Some(e), _) => Some(add(p3(m), p3(e))),
            (Some(m), None, Some(mo)) => Some(sub(p3(m), scale(p3(mo), 1.0 / EMRAT))),
            _ => None,
        };
        let judge = |what: &str, got: Option<[f64; 3]>, want: Option<[f64; 3]>, u: f64, lenient: bool| -> Outcome {
            cov(if got.is_some() { "runtime_answers" } else { "runtime_refusals" });
            match (got, want) {
                (Some(g), Some(w)) => { let w = ecl(w); let n = (w[0] * w[0] + w[1] * w[1] + w[2] * w[2]).sqrt(); let g = scale(g, u);
                    ensure!((0..3).all(|k| (g[k] - w[k]).abs() <= 1e-6 * n + 1e-2), "runtime", "{what} at day {hh}.5: {g:?} km, expected {w:?}"); Ok(()) }
                (None, None) => Ok(()),
                (None, Some(_)) if lenient => Ok(()),
                (g, w) => mm("runtime", format!("{what} at day {hh}.5: {g:?}, expected {w:?}")),
            }
        };
        let t = jd(hh);
        judge("sun_barycentric", rt.try_sun_barycentric(t).ok().map(|p| [p.x().value(), p.y().value(), p.z().value()]), sun.map(p3), au, false)?;
        judge("earth_barycentric", rt.try_earth_barycentric(t).ok().map(|p| [p.x().value(), p.y().value(), p.z().value()]), e_bary, au, fall_back_ok)?;
        judge("earth_heliocentric", rt.try_earth_heliocentric(t).ok().map(|p| [p.x().value(), p.y().value(), p.z().value()]), match (e_bary, sun) { (Some(e), Some(s)) => Some(sub(e, p3(s))), _ => None }, au, fall_back_ok)?;
        let mg = match (moon, earth) { (Some(m), Some(e)) => Some(sub(p3(m), p3(e))), (Some(m), None) => Some(scale(p3(m), 1.0 + 1.0 / EMRAT)), _ => None };
        judge("moon_geocentric", rt.try_moon_geocentric(t).ok().map(|p| [p.x().value(), p.y().value(), p.z().value()]), mg, 1.0, fall_back_ok)?;
        let v3 = |s: &[f64; 6]| [s[3] * DAY, s[4] * DAY, s[5] * DAY];
        let ev = match (emb, earth, moon) {
            (Some(m), Some(e), _) => Some(add(v3(m), v3(e))),
            (Some(m), None, Some(mo)) => Some(sub(v3(m), scale(v3(mo), 1.0 / EMRAT))),
            _ => None,
        };
        judge("earth_barycentric_velocity", rt.try_earth_barycentric_velocity(t).ok().map(|p| [p.x().value(), p.y().value(), p.z().value()]), ev, au, fall_back_ok)?;
    }
    Ok(())
}
// --- S02 -------------------------------------------------------------------
type M3 = [[f64; 3]; 3];
fn mul(a: M3, b: M3) -> M3 { let mut o = [[0.0; 3]; 3]; for i in 0..3 { for j in 0..3 { for k in 0..3 { o[i][j] += a[i][k] * b[k][j]; } } } o }
fn tr(a: M3) -> M3 { let mut o = a; for i in 0..3 { for j in 0..3 { o[i][j] = a[j][i]; } } o }
const ID: M3 = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
/// Rotation about the unit axis `(i+1, 2, 3-i)` by `i * 37` degrees (Rodrigues).
fn tkm(n: i64) -> M3 {
    let ax = [n as f64 + 1.0, 2.0, 3.0 - n as f64];
    let l = (ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]).sqrt();
    let u = [ax[0] / l, ax[1] / l, ax[2] / l];
    let (s, c) = (n as f64 * 37.0).to_radians().sin_cos();
    let k = [[0.0, -u[2], u[1]], [u[2], 0.0, -u[0]], [-u[1], u[0], 0.0]];
    let kk = mul(k, k);
    let mut o = ID;
    for i in 0..3 { for j in 0..3 { o[i][j] += s * k[i][j] + (1.0 - c) * kk[i][j]; } }
    o
}
fn orient_coeffs(v: i64) -> ([f64; 2], [f64; 2], [f64; 2]) {
    let v = v as f64;
    ([40.0 * v + 3.0, -0.6 + 0.1 * v], [20.0 * v - 15.0, 0.25 * v], [17.0 * v, 360.9856235 / v])
}
/// Body-fixed to inertial: columns are the body axes (prime meridian, its east, pole).
fn orient(v: i64, et: f64) -> M3 {
    let (ra, de, w) = orient_coeffs(v);
    let t = et / (36525.0 * 86400.0);
    let d = et / 86400.0;
    let (ra, de, w) = ((ra[0] + ra[1] * t).to_radians(), (de[0] + de[1] * t).to_radians(), (w[0] + w[1] * d).to_radians());
    let pole = [de.cos() * ra.cos(), de.cos() * ra.sin(), de.sin()];
    let node = [-ra.sin(), ra.cos(), 0.0];
    let cr = [pole[1] * node[2] - pole[2] * node[1], pole[2] * node[0] - pole[0] * node[2], pole[0] * node[1] - pole[1] * node[0]];
    let x: Vec<f64> = (0..3).map(|k| w.cos() * node[k] + w.sin() * cr[k]).collect();
    let y: Vec<f64> = (0..3).map(|k| -w.sin() * node[k] + w.cos() * cr[k]).collect();
    [[x[0], y[0], pole[0]], [x[1], y[1], pole[1]], [x[2], y[2], pole[2]]]
}
/// Leap tables: (seconds past J2000 of the calendar date, delta). Dates and their day offsets
/// from 2000-01-01 are written out by hand.
fn leap(v: i64) -> (f64, Vec<(&'static str, f64, f64)>) {
    let d = |days: f64| (days - 0.5) * 86400.0;
    match v {
        1 => (32.184, vec![("@1972-JAN-1", d(-10227.0), 10.0), ("@1999-JAN-1", d(-365.0), 32.0), ("@2006-JAN-1", d(2192.0), 33.0)]),
        2 => (30.5, vec![("@1972-JUL-1", d(-10045.0), 11.0), ("@2000-MAR-1", d(60.0), 40.0)]),
        _ => (32.184, vec![("@1999-JAN-1", d(-365.0), 32.0), ("@2009-JAN-1", d(3288.0), 34.0), ("@2012-JUL-1", d(4565.0), 35.0), ("@2017-JAN-1", d(6210.0), 37.0)]),
    }
}
fn clock(v: i64) -> Vec<(f64, f64, f64)> {
    match v {
        1 => vec![(0.0, 0.0, 1.0), (1000.0, 1000.0, 2.0), (5000.0, 3000.0, 0.5)],
        _ => vec![(500.0, -2000.0, 256.0), (512_500.0, 0.0, 255.0)],
    }
}
/// Renders statements; `style` varies layout only.
struct Text { out: String, style: u64 }
impl Text {
    fn new(style: u64) -> Self { Text { out: "KPL/TXT\nSome comment FRAME_999_NAME = 'X'\n\\begindata\n".into(), style } }
    fn put(&mut self, key: &str, vals: &[String]) {
        let style = self.style % 7;
        let key = if style == 4 { key.to_ascii_lowercase() } else { key.to_string() };
        match style {
            1 if vals.len() > 1 => for v in vals { self.out += &format!("  {key} += {v}\n") },
            2 if vals.len() > 1 => { self.out += &format!("{key} = (\n"); for v in vals { self.out += &format!("     {v}\n") } self.out += "  )\n\n" }
            3 => { self.out += "/* a comment */\n\\begintext\n"; self.out += &format!("{key} = 12345 noise ( '\n\\begindata\n"); self.join(&key, vals, ", ") }
            5 => { self.join(&key, &["0".to_string()], " "); self.join(&key, vals, " , ") }
            6 => { self.out += &format!("  {key}\n= ").replace('\n', " "); let l = vals.len(); if l == 1 { self.out += &format!("{} /* tail */\n", vals[0]) } else { self.out += &format!("( {} /* tail */\n /* inner */ {} )\n", vals[..l / 2].join(" "), vals[l / 2..].join(",")) } }
            _ => self.join(&key, vals, " "),
        }
    }
    fn join(&mut self, key: &str, vals: &[String], sep: &str) {
        if vals.len() == 1 { self.out += &format!("{key} = {}\n", vals[0]) } else { self.out += &format!("{key}={}{}{}\n", "( ", vals.join(sep), " )") }
    }
    fn s(&mut self, key: &str, v: &str) { self.put(key, &[format!("'{v}'")]) }
    fn n(&mut self, key: &str, v: i64) { self.put(key, &[v.to_string()]) }
    fn f(&mut self, key: &str, v: &[f64]) { let e: Vec<String> = v.iter().map(|x| if self.style % 2 == 0 { format!("{x:?}") } else { format!("{x:e}") }).collect(); self.put(key, &e) }
}
fn text_file(f: &Value, style: u64) -> String {
    let bad = st(f, "bad");
    let mut t = Text::new(style);
    if bad == "lsk" || i(f, "lsk") > 0 {
        let (dta, tab) = leap(i(f, "lsk"));
        t.f("DELTET/DELTA_T_A", &[dta]);
        let mut vals: Vec<String> = Vec::new();
        for (k, (d, s, x)) in tab.iter().enumerate() { vals.push(format!("{x}")); vals.push(if (style as usize + k) % 3 == 0 { format!("{s:?}") } else { (*d).to_string() }); }
        if bad == "lsk" { vals.pop(); }
        t.put("DELTET/DELTA_AT", &vals);
    }
    for (k, d) in arr(f, "fk").iter().enumerate() {
        let id = i(d, "id");
        let cls = match st(d, "cls") { "tk" => 4, "pck" => 2, "ck" => 3, _ => 1 };
        let nm = st(d, "nm");
        t.s(&format!("FRAME_{id}_NAME"), &if style % 3 == 1 { nm.to_lowercase() } else { nm.to_string() });
        t.n(&format!("FRAME_{id}_CLASS"), cls);
        if !(bad == "fk" && k == 0) { t.n(&format!("FRAME_{id}_CLASS_ID"), if cls == 2 { i(d, "b") } else { id }); }
        t.n(&format!("FRAME_{id}_CENTER"), 399);
        if cls == 4 {
            t.s(&format!("TKFRAME_{id}_SPEC"), "MATRIX");
            t.s(&format!("TKFRAME_{id}_RELATIVE"), &if style % 3 == 2 { st(d, "rel").to_lowercase() } else { st(d, "rel").to_string() });
            let m = tkm(i(d, "m"));
            t.f(&format!("TKFRAME_{id}_MATRIX"), &m.concat());
        }
    }
    for (k, o) in arr(f, "pck").iter().enumerate() {
        let (bo, v) = (i(o, "b"), i(o, "v"));
        t.f(&format!("BODY{bo}_RADII"), &[6378.0 + bo as f64, 6378.0, 6356.0]);
        if v != 0 {
            let (ra, de, w) = orient_coeffs(v.max(1));
            t.f(&format!("BODY{bo}_POLE_RA"), &ra);
            t.f(&format!("BODY{bo}_POLE_DEC"), &de);
            if v > 0 { t.f(&format!("BODY{bo}_PM"), &w); }
        }
        if bad == "pck" && k == 0 { t.s("BODY55_RADII", "none"); }
    }
    if i(f, "sclk") > 0 {
        let mut c = clock(i(f, "sclk"));
        if style % 5 == 2 { c.reverse(); }
        let mut flat: Vec<f64> = c.iter().flat_map(|x| [x.0, x.1, x.2]).collect();
        if bad == "sclk" { flat.pop(); }
        t.f(&format!("SCLK01_COEFFICIENTS_{}", 80 + i(f, "sclk")), &flat);
    }
    if i(f, "ik") > 0 {
        t.s("INS-5100_FOV_SHAPE", "CIRCLE");
        t.s("INS-5100_FOV_FRAME", "A");
        t.f("INS-5100_BORESIGHT", if bad == "ik" { &[0.0, 1.0] } else { &[0.0, 0.0, 1.0] });
        t.f("INS-5100_FOV_REF_ANGLE", &[3.5]);
    }
    t.out += "\\begintext\nend = of file\n";
    t.out
}
pub fn replay_text(v: &Value) -> Outcome {
    let h = hash(&v["loads"]);
    let mut ctx = SpiceContext::new();
    for (k, f) in arr(v, "files").iter().enumerate() {
        let style = (h >> (7 * k)) % 105;
        let text = text_file(f, style);
        let bad = st(f, "bad");
        match ctx.load_bytes(format!("t{k}"), text.clone().into_bytes()) {
            Ok(()) => ensure!(bad.is_empty(), "load", "file {k} with a malformed {bad} section was accepted:\n{text}"),
            Err(e) => ensure!(!bad.is_empty(), "load", "well-formed file {k} rejected: {e}\n{text}"),
        }
        cov(if bad.is_empty() { "files_loaded" } else { "files_rejected" });
    }
    let ks = ctx.kernel_set();
    ensure!(ks.fk_kernels().count() as i64 == i(v, "nfk"), "count", "{} frame kernels registered, expected {}", ks.fk_kernels().count(), i(v, "nfk"));
    ensure!(ks.pck_text_kernels().count() as i64 == i(v, "npck"), "count", "{} PCKs registered, expected {}", ks.pck_text_kernels().count(), i(v, "npck"));
    ensure!(ks.sclk_kernels().count() == arr(v, "sclks").len(), "count", "{} clocks registered", ks.sclk_kernels().count());
    // leap seconds
    let l = i(v, "lsk");
    ensure!(ks.has_lsk() == (l > 0), "lsk", "has_lsk {}", ks.has_lsk());
    for et in [-1.0e10, -8.0e8, -31_579_200.5, -31_579_200.0, 0.0, 5_140_799.0, 5_140_800.0, 1.8934e8, 1.8935e8, 3.0e8, 4.0e8, 9.0e8] {
        let got = (ctx.tai_minus_utc(et), ctx.tdb_minus_utc(et));
        if l == 0 { ensure!(got.0.is_err() && got.1.is_err(), "lsk", "time offsets answered without leap seconds: {got:?}"); continue; }
        let (dta, tab) = leap(l);
        let want = tab.iter().filter(|x| x.1 <= et).next_back().map_or(0.0, |x| x.2);
        match got {
            (Ok(a), Ok(c)) => ensure!((a - want).abs() < 1e-9 && (c - want - dta).abs() < 1e-9, "lsk", "TAI-UTC {a}, TDB-UTC {c} at {et}; expected {want} and {}", want + dta),
            g => bail!("lsk", "time offsets at {et}: {g:?}"),
        }
        cov("offsets_checked");
    }
    // clocks
    for (k, s) in ctx.kernel_set().sclk_kernels().enumerate() {
        let n = v["sclks"][k].as_i64().unwrap();
        ensure!(s.sc_id as i64 == 80 + n, "sclk", "clock id {}", s.sc_id);
        let c = clock(n);
        for et in [-3000.0, -2000.0, -1.0, 0.0, 1.0, 999.0, 1000.0, 1500.0, 2999.0, 3000.0, 1.0e6] {
            match (s.et_to_sclkdp(et), c.iter().rev().find(|x| x.1 <= et)) {
                (Ok(g), Some(x)) => {
                    let w = x.0 + (et - x.1) * x.2;
                    ensure!((g - w).abs() < 1e-6, "sclk", "clock {n} at {et}: {g}, expected {w}");
                    let back = s.sclkdp_to_et(g).map_err(|e| Mismatch { key: "sclk".into(), msg: e.to_string() })?;
                    ensure!((back - et).abs() < 1e-6, "sclk", "clock {n}: {et} -> {g} -> {back}");
                    cov("clock_conversions");
                }
                (Err(_), None) => {}
                (g, w) => bail!("sclk", "clock {n} at {et}: {g:?}, expected partition {w:?}"),
            }
        }
        ensure!(s.sclkdp_to_et(c[0].0 - 1.0).is_err(), "sclk", "ticks before the clock starts were converted");
    }
    // rotations
    let et = [0.0, 3.15e8, -4.2e7][(h % 3) as usize];
    let mat = |r: &Value| -> Result<M3, String> {
        if !b(r, "ok") { return Err(st(r, "e").to_string()); }
        let mut o = ID;
        for m in ints(&r["p"]).into_iter().rev() { o = if m > 0 { mul(o, tkm(m)) } else { orient(-m, et) } }
        Ok(o)
    };
    for a in arr(v, "paths") {
        for c in arr(v, "paths") {
            let (fa, fc) = (i(a, "id"), i(c, "id"));
            let got = ctx.rotation_naif(fa as i32, fc as i32, et);
            if fa == fc {
                match &got {
                    Ok(g) => ensure!(*g == ID, "rotation", "rotation of frame {fa} to itself: {g:?}"),
                    Err(_) => ensure!(mat(&a["r"]).is_err(), "rotation", "rotation of frame {fa} to itself failed: {got:?}"),
                }
                continue;
            }
            match (mat(&a["r"]), mat(&c["r"])) {
                (Ok(x), Ok(y)) => {
                    let w = mul(tr(y), x);
                    match got {
                        Ok(g) => { cov("rotations"); ensure!((0..3).all(|i| (0..3).all(|j| (g[i][j] - w[i][j]).abs() < 1e-9)), "rotation", "rotation {fa} -> {fc} at {et}: {g:?}, expected {w:?}") }
                        Err(e) => bail!("rotation", "rotation {fa} -> {fc} failed: {e}; expected {w:?}"),
                    }
                }
                (x, y) => {
                    let kinds: Vec<String> = [x.err(), y.err()].into_iter().flatten().collect();
                    match got {
                        Ok(g) => bail!("rotation", "rotation {fa} -> {fc} answered {g:?}; expected an error ({kinds:?})"),
                        Err(e) => {
                            cov("rotations_refused");
                            let k = match e { SpiceContextError::UnknownFrame { .. } => "unknown", SpiceContextError::KernelNotLoaded { .. } => "notloaded", SpiceContextError::UnsupportedKernelQuery { .. } => "unsupported", _ => "other" };
                            ensure!(kinds.iter().any(|x| x == k || x == "cycle"), "rotation", "rotation {fa} -> {fc} failed as {k}, expected {kinds:?}");
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

// --- S04 -------------------------------------------------------------------
pub fn replay_damage(v: &Value) -> Outcome {
    let kind = st(v, "kind");
    let mk = |gid: usize, t: i32, c: i32| Seg { t, c, a: 0.0, b: 4000.0, unsup: false, gid };
    let good = spk_file(&[(mk(0, 3, 0), 2), (mk(1, 399, 3), 13)], 25, false);
    let mut ctx = SpiceContext::new();
    let lsk = |d: f64| format!("KPL/LSK\n\\begindata\nDELTET/DELTA_T_A = {d}\nDELTET/DELTA_AT = ( 10, 0.0 20, 100.0 )\nFRAME_500_NAME = 'Q'\nFRAME_500_CLASS = 4\nFRAME_500_CLASS_ID = 500\nFRAME_500_CENTER = 3\nTKFRAME_500_SPEC = 'MATRIX'\nTKFRAME_500_RELATIVE = 'J2000'\nTKFRAME_500_MATRIX = ( 0 1 0 -1 0 0 0 0 1 )\n\\begintext\n");
    if ctx.load_bytes("good", good).is_err() || ctx.load_bytes("lsk", lsk(32.0).into_bytes()).is_err() { bail!("load", "good kernels rejected") }
    let dmg: Vec<(String, String)> = arr(v, "dmg").iter().map(|d| (d[0].as_str().unwrap().to_string(), d[1].as_str().unwrap().to_string())).collect();
    let dt = match kind { "spk2" => 2, "spk3" => 3, "spk9" => 9, "spk13" => 13, _ => 0 };
    let mut bytes = match kind {
        "text" => lsk(31.0).into_bytes(),
        "ck" => {
            // one type 1 segment with three records
            let mut f = spk_file(&[(mk(2, -1000, 1), 5)], 25, false);
            f[0..8].copy_from_slice(b"DAF/CK  ");
            let data: Vec<f64> = vec![0.0, 1.0, 0.0, 0.0, 0.0, 2000.0, 0.8, 0.6, 0.0, 0.0, 4000.0, 0.6, 0.8, 0.0, 0.0, 3.0];
            for (k, d) in data.iter().enumerate() { let o = 2048 + 8 * k; f[o..o + 8].copy_from_slice(&d.to_le_bytes()); }
            for (j, x) in [-1000i32, 1, 1, 0, 257, 257 + 15].into_iter().enumerate() { f[1024 + 24 + 16 + 4 * j..1024 + 24 + 20 + 4 * j].copy_from_slice(&x.to_le_bytes()); }
            f
        }
        _ => spk_file(&[(mk(4, 399, 3), dt), (mk(3, 301, 3), dt)], 1, false),
    };
    let nd = |x: f64, m: &str| match m { "zero" => 0.0, "minus" => -1.0, "one" => 1.0, "more" => x + 1.0, "less" => x - 1.0, "huge" => 1.0e300, _ => f64::NAN };
    let ni = |x: i32, m: &str| match m { "zero" => 0, "minus" => -1, "one" => 1, "more" => x.wrapping_add(1), "less" => x.wrapping_sub(1), "huge" => i32::MAX, _ => i32::MIN };
    if kind == "text" {
        for (f, m) in &dmg {
            // damage to text: a character replaced or the text cut, at a place named by the field
            let pos = (f.bytes().map(|b| b as usize * 37).sum::<usize>()) % bytes.len();
            match m.as_str() { "zero" => bytes[pos] = b'\'', "minus" => bytes[pos] = b'(', "one" => bytes[pos] = b')', "more" => bytes[pos] = b'=', "less" => { bytes.truncate(pos + 1) } "huge" => bytes[pos] = 0xff, _ => bytes[pos] = b'\n' }
            if bytes.len() < 3 { break; }
        }
    } else {
        let w0 = i32::from_le_bytes(bytes[1024 + 24 + 32..1024 + 24 + 36].try_into().unwrap()) as usize;
        let w1 = i32::from_le_bytes(bytes[1024 + 24 + 36..1024 + 24 + 40].try_into().unwrap()) as usize;
        for (f, m) in &dmg {
            let ioff = match f.as_str() { "nd" => 8, "ni" => 12, "fward" => 76, "target" => 1064, "center" => 1068, "frame" => 1072, "type" => 1076, "w0" => 1080, "w1" => 1084, _ => 0 };
            if ioff > 0 { if ioff + 4 <= bytes.len() { let x = i32::from_le_bytes(bytes[ioff..ioff + 4].try_into().unwrap()); bytes[ioff..ioff + 4].copy_from_slice(&ni(x, m).to_le_bytes()); } continue; }
            let foff = match f.as_str() {
                "next" => 1024, "prev" => 1032, "nsum" => 1040, "start" => 1048, "end" => 1056,
                "mid" => (w0 - 1) * 8, "radius" => w0 * 8, "coef" => (w0 + 1) * 8,
                "trail1" => (w1 - 1) * 8, "trail2" => (w1 - 2) * 8, "trail3" => (w1 - 3) * 8, "trail4" => (w1 - 4) * 8, _ => 0 };
            if foff > 0 { if foff + 8 <= bytes.len() { let x = f64::from_le_bytes(bytes[foff..foff + 8].try_into().unwrap()); bytes[foff..foff + 8].copy_from_slice(&nd(x, m).to_le_bytes()); } continue; }
            if f == "locator" { let k = match m.as_str() { "zero" => b"\0\0\0\0\0\0\0\0", "minus" => b"DAF/PCK ", "one" => b"DAF/EK  ", "more" => b"DAF/CK  ", "less" => b"DAF/SPK ", "huge" => b"daf/spk ", _ => b"\xff\xfe\xfd\xfc\xff\xff\xff\xff" }; if bytes.len() >= 8 { bytes[..8].copy_from_slice(k) } }
            if f == "cut" { let n = match m.as_str() { "zero" => 0, "minus" => bytes.len().saturating_sub(1024), "one" => 1, "more" => 1024, "less" => (w0 * 8 + 16).min(bytes.len()), "huge" => 7, _ => 1100.min(bytes.len()) }; bytes.truncate(n); }
        }
    }
    let probe = |c: &SpiceContext| -> Vec<String> {
        let mut o = Vec::new();
        for et in [0.0, 1.0, 1999.0, 4000.0, 4001.0, -1.0] {
            for (t, k) in [(399, 0), (399, 3), (3, 399), (301, 3), (301, 0), (0, 1), (-1000, 1)] { o.push(format!("{:?}", c.state_naif(t, k, et).ok())); }
            o.push(format!("{:?} {:?}", c.tai_minus_utc(et).ok(), c.tdb_minus_utc(et).ok()));
            o.push(format!("{:?}", c.rotation_naif(500, 1, et).ok()));
        }
        let k = c.kernel_set();
        for ck in k.ck_kernels() { for s in [0.0, 1000.0, 3999.0, 4000.5, -1.0, f64::NAN] { for id in [-1000, 1, -1] { o.push(format!("{:?}", ck.rotation(id, s).ok())); } } }
        o.push(format!("{} {} {} {} {}", k.spk_count(), k.ck_count(), k.fk_kernels().count(), k.pck_text_kernels().count(), k.sclk_kernels().count()));
        o
    };
    let before = probe(&ctx);
    match ctx.load_bytes("damaged", bytes.clone()) {
        Err(_) => {
            cov("refused");
            let after = probe(&ctx);
            ensure!(before == after, "atomic", "a refused {kind} kernel changed the context's answers");
        }
        Ok(()) => { cov("accepted"); let _ = probe(&ctx); }
    }
    if kind.starts_with("spk") {
        let mut set = SpkKernelSet::default();
        let n = set.segment_count();
        match set.push_bytes(&bytes) {
            Err(_) => ensure!(set.segment_count() == n, "atomic", "a refused SPK file left segments behind"),
            Ok(()) => for t in [0, 3, 301, 399] { for d in [0.0, 0.001, 0.04] { let _ = set.try_geometric_state(t, 0, JulianDate::new(2_451_545.0 + d)); let _ = set.try_geometric_state(399, t, JulianDate::new(2_451_545.0 + d)); } },
        }
        let _ = RuntimeEphemeris::from_bytes(&bytes).map(|r| r.try_earth_barycentric(JulianDate::new(2_451_545.0)).is_ok());
    }
    Ok(())
}
