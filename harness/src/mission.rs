//! Mission geometry and the registry of sites and instruments.
use crate::common::*;
use crate::{bail, ensure};
use serde_json::Value;
use siderust::coordinates::cartesian::{Direction, Position, Velocity};
use siderust::coordinates::centers::Geocentric;
use siderust::coordinates::frames::ECEF;
use siderust::mission::geometry::*;
use siderust::mission::context::MissionContext;
use siderust::mission::site::Location;
use siderust::qtty::angular::Radians;
use siderust::qtty::length::{Meter, Meters};
use siderust::qtty::time::Second;
use siderust::qtty::Per;
use std::f64::consts::{PI, TAU};

type P = Position<Geocentric, ECEF, Meter>;
type V = Velocity<ECEF, Per<Meter, Second>>;
fn deg(d: i64) -> Radians { Radians::new((d as f64).to_radians()) }
fn f3(v: &Value) -> [f64; 3] { let a = ints(v); [a[0] as f64, a[1] as f64, a[2] as f64] }
/// one of the rotations that permute the axes
fn turned(v: [f64; 3], k: i64) -> [f64; 3] {
    let [x, y, z] = v;
    match k { 0 => [x, y, z], 1 => [y, z, x], 2 => [z, x, y], 3 => [-x, -y, z], 4 => [-y, x, z], _ => [-z, y, -x] }
}

pub fn replay(s: &Value) -> Outcome {
    let v = &s["v"];
    match st(s, "mode") {
        "los" => {
            let near = i(v, "near");
            if near == 0 { cov("grazing, not decided"); return Ok(()); }
            let m = 1.0e6;
            let p = |k: &str| { let a = f3(&v[k]); P::new(a[0] * m, a[1] * m, a[2] * m) };
            let r = Meters::new(i(v, "r") as f64 * m);
            for (a, b, way) in [(p("a"), p("b"), "forth"), (p("b"), p("a"), "back")] {
                let got = line_of_sight_obstructed(&a, &b, r);
                ensure!(got == (near < 0), "los", "{v}, {way}: obstructed is {got}");
            }
            cov("lines of sight");
        }
        "shadow" => {
            let m = 1.0e6;
            let at = |x: f64, y: f64, z: f64| { let [x, y, z] = turned([x, y, z], i(v, "turn")); let o = i(v, "move") as f64 * 3.0; P::new((x + o) * m, (y - o) * m, (z + o) * m) };
            let (sun, occ) = (at(i(v, "dist") as f64, 0.0, 0.0), at(0.0, 0.0, 0.0));
            let (rs, ro) = (Meters::new(i(v, "sun") as f64 * m), Meters::new(i(v, "occ") as f64 * m));
            let mut last = f64::INFINITY;
            for (k, off) in ints(&v["offs"]).into_iter().enumerate() {
                let want = v["states"][k].as_str().unwrap();
                for side in 0..3 {
                    let (y, z) = [(off as f64, 0.0), (-(off as f64), 0.0), (0.6 * off as f64, -0.8 * off as f64)][side];
                    let sat = at(-i(v, "back") as f64, y, z);
                    let d = (y * y + z * z + (i(v, "back") as f64 + i(v, "dist") as f64).powi(2)).sqrt();
                    if d <= i(v, "sun") as f64 { continue; }
                    let got = eclipse_state(&sat, &sun, rs, &occ, ro);
                    let fr = occultation_fraction(&sat, &sun, rs, &occ, ro);
                    ensure!(format!("{got:?}") == want, "eclipse", "{v}: {off} aside is {got:?} ({fr}), expected {want}");
                    ensure!(solar_eclipsing(&sat, &sun, rs, &occ, ro) == (want != "Sunlight"), "eclipsing", "{v}: {off} aside");
                    let fits = match want { "Sunlight" => fr == 0.0, "Umbra" => fr >= 1.0 - 1e-9 && fr <= 1.0, _ => fr > 0.0 && fr < 1.0 };
                    ensure!(fits, "fraction", "{v}: {off} aside hides {fr} in {want}");
                    ensure!(fr <= last + 1e-9, "brighter", "{v}: {off} aside hides {fr}, nearer the axis {last}");
                    last = last.min(fr);
                    cov(match want { "Sunlight" => "sunlight", "Umbra" => "umbra", _ => "penumbra" });
                }
            }
        }
        "mask" => {
            let mask = TerrainMask::new(arr(v, "s").iter().map(|p| { let p = ints(p); (deg(p[0]), deg(p[1])) }).collect());
            for q in arr(v, "at") {
                let q = ints(q);
                let (got, want) = (mask.elevation_at(deg(q[0])).value(), (q[1] as f64 / q[2] as f64).to_radians());
                ensure!((got - want).abs() < 1e-9, "mask", "{v}: at {} the mask is {}, expected {}", q[0], got.to_degrees(), want.to_degrees());
                for e in [-0.01, 0.01] { ensure!(mask.clears(deg(q[0]), Radians::new(want + e)) == (e > 0.0), "clears", "{v} at {}", q[0]); }
            }
            cov("masks");
        }
        "fov" => {
            let (w, l) = (deg(i(v, "across")), deg(i(v, "along")));
            let fov = if st(v, "kind") == "cone" { Fov::Conical { half_angle: w / 2.0 } } else { Fov::Rectangular { across_track: w, along_track: l } };
            for (k, o) in ints(&v["offs"]).into_iter().enumerate() {
                let got = fov.contains_boresight(Radians::new((o as f64 / 10.0).to_radians()));
                ensure!(got == v["seen"][k].as_bool().unwrap(), "fov", "{v}: {o} tenths of a degree aside seen is {got}");
            }
            cov("fields of view");
        }
        "sky" => {
            let (lat, lon) = (i(v, "lat") as f64 * PI / 180.0, i(v, "lon") as f64 * PI / 180.0);
            let frame = LocalFrame::new(Radians::new(lat), Radians::new(lon));
            // the axes of the site, from the directions of increasing longitude and latitude
            let up = [lat.cos() * lon.cos(), lat.cos() * lon.sin(), lat.sin()];
            let (e, n) = ([-lon.sin(), lon.cos(), 0.0], [-lat.sin() * lon.cos(), -lat.sin() * lon.sin(), lat.cos()]);
            let mix = |w: [f64; 3], m: f64| [0, 1, 2].map(|k| (w[0] * e[k] + w[1] * n[k] + w[2] * up[k]) * m);
            let (enu, rv) = (f3(&v["enu"]), f3(&v["v"]));
            let site = up.map(|u| u * 6.378e6);
            let (to, vel) = (mix(enu, 1.0e5), mix(rv, 100.0));
            let o = P::new(site[0], site[1], site[2]);
            let t = P::new(site[0] + to[0], site[1] + to[1], site[2] + to[2]);
            let base = [30.0, -400.0, 7.0];
            let a = azimuth_elevation_range(&o, &V::new(base[0], base[1], base[2]), &t, &V::new(base[0] + vel[0], base[1] + vel[1], base[2] + vel[2]), frame);
            let range = (i(v, "square") as f64).sqrt() * 1.0e5;
            let close = |g: f64, w: f64, tol: f64| (g - w).abs() <= tol;
            ensure!(close(a.range.value(), range, 1e-6 * range) && close(a.light_time.value() * 299_792_458.0, range, 1e-6 * range), "range", "{v}: {a:?}");
            let rate = i(v, "closing") as f64 / (i(v, "square") as f64).sqrt() * 100.0;
            ensure!(close(a.range_rate.value(), rate, 1e-5), "range-rate", "{v}: {a:?}, expected {rate}");
            let (az, el) = (enu[0].atan2(enu[1]).rem_euclid(TAU), enu[2].atan2(enu[0].hypot(enu[1])));
            let level = enu[0].hypot(enu[1]) > 0.0;
            let (gz, gl) = (a.pointing.az().value(), a.pointing.alt().value());
            let fits = |k: f64| close(gl * k, el, 1e-7) && (!level || { let d = (gz * k - az).rem_euclid(TAU); d.min(TAU - d) < 1e-7 });
            if !fits(PI / 180.0) {
                ensure!(fits(1.0), "pointing", "{v}: azimuth {gz}, elevation {gl}, expected {} and {}", az.to_degrees(), el.to_degrees());
                cov("pointings");
                bail!("pointing-in-radians", "{v}: pointing (azimuth {gz}, elevation {gl} degrees) holds radians, expected {} and {} degrees", az.to_degrees(), el.to_degrees());
            }
            cov("pointings");
        }
        "sun" => {
            let want = i(v, "solar") as f64;
            for (what, got) in [("local_solar_time", local_solar_time(deg(i(v, "lon")), deg(i(v, "sun"))).value()), ("ltan", ltan(deg(i(v, "lon")), deg(i(v, "sun"))).value())] {
                let d = (got - want).rem_euclid(86_400.0);
                ensure!((0.0..86_400.0 + 1e-6).contains(&got) && d.min(86_400.0 - d) < 1e-5, "solar", "{v}: {what} is {got}, expected {want}");
            }
            let (r, w, s) = (f3(&v["r"]), f3(&v["v"]), f3(&v["s"]));
            let b = beta_angle(&P::new(r[0] * 7e6, r[1] * 7e6, r[2] * 7e6), &V::new(w[0] * 7e3, w[1] * 7e3, w[2] * 7e3), &Direction::<ECEF>::new(s[0], s[1], s[2])).value();
            let want = (i(v, "side") as f64 / (i(v, "normal") as f64 * i(v, "light") as f64).sqrt()).clamp(-1.0, 1.0).asin();
            // the sine loses digits near the poles of the orbit; states that are not at right angles are none of the crate's business
            let r_dot_v = r[0] * w[0] + r[1] * w[1] + r[2] * w[2];
            ensure!((b - want).abs() < 1e-7, if r_dot_v == 0.0 { "beta" } else { "beta-oblique" }, "{v}: the Sun is {} over the orbit, expected {}", b.to_degrees(), want.to_degrees());
            cov("suns");
        }
        _ => {
            let mut c = MissionContext::new();
            let mark = |n: i64| LocalFrame::new(Radians::new(n as f64 / 100.0), Radians::new(0.5));
            let cone = |n: i64| Fov::Conical { half_angle: Radians::new(n as f64 / 100.0) };
            let seen = |c: &MissionContext, kind: &str, k: &str| -> i64 {
                if kind == "site" { c.location(k).map_or(0, |l| (l.frame.lat.value() * 100.0).round() as i64) } else { c.instrument(k).map_or(0, |l| match l.fov { Fov::Conical { half_angle } => (half_angle.value() * 100.0).round() as i64, _ => -1 }) }
            };
            for (n, e) in arr(v, "log").iter().enumerate() {
                let (kind, op, k, w) = (e[0].as_str().unwrap(), e[1].as_str().unwrap(), e[2].as_str().unwrap(), e[3].as_i64().unwrap());
                let before = e[4].as_i64().unwrap();
                ensure!(seen(&c, kind, k) == before, "registry", "{v}, step {n}: {kind} {k} is {}, expected {before}", seen(&c, kind, k));
                match (kind, op) {
                    ("site", "add") => { let l = Location::new("same", mark(w)); if n % 2 == 0 { c.add_location(k, l) } else { c = c.with_location(k, l) } }
                    ("tool", "add") => { let l = Instrument::new("same", cone(w)); if n % 2 == 0 { c.add_instrument(k, l) } else { c = c.with_instrument(k, l) } }
                    ("site", _) => ensure!(c.remove_location(k).is_some() == (before > 0), "removed", "{v}, step {n}"),
                    _ => ensure!(c.remove_instrument(k).is_some() == (before > 0), "removed", "{v}, step {n}"),
                }
            }
            for kind in ["site", "tool"] {
                let w = ints(&v[kind]);
                for (k, n) in ["a", "b"].iter().zip(&w) { ensure!(seen(&c, kind, k) == *n, "registry", "{v}: {kind} {k} is {}, expected {n}", seen(&c, kind, k)); }
                let mut listed: Vec<(String, i64)> = if kind == "site" { c.locations().map(|(k, _)| (k.clone(), seen(&c, kind, k))).collect() } else { c.instruments().map(|(k, _)| (k.clone(), seen(&c, kind, k))).collect() };
                listed.sort();
                let want: Vec<(String, i64)> = ["a", "b"].iter().zip(&w).filter(|x| *x.1 > 0).map(|(k, n)| (k.to_string(), *n)).collect();
                ensure!(listed == want, "listed", "{v}: {kind}s are {listed:?}, expected {want:?}");
            }
            // an alias that was never given
            ensure!(c.location("c").is_none() && c.instrument("c").is_none(), "registry", "an alias out of nowhere");
            cov("histories");
        }
    }
    Ok(())
}
