//! Extended squitter frames and compact position reports.
use crate::common::*;
use crate::{bail, ensure};
use serde_json::Value;
use siderust::formats::adsb::cpr::{decode_globally, decode_locally};
use siderust::formats::adsb::{decode_airborne_position, decode_airborne_velocity, decode_altitude, decode_identification, parse_frame};

fn turn(x: f64) -> f64 { (x + 180.0).rem_euclid(360.0) - 180.0 }
pub fn replay_cpr(v: &Value) -> Outcome {
    let (e, o, w, n) = (ints(&v["even"]), ints(&v["odd"]), ints(&v["want"]), i(v, "n"));
    let odd = i(v, "latest") == 1;
    let local = st(v, "mode") == "local";
    let r = ints(&v["ref"]);
    let got = guard(|| if local {
        let f = if odd { &o } else { &e };
        decode_locally(f[0] as u32, f[1] as u32, odd, r[0] as f64 / 1e3, r[1] as f64 / 1e3)
    } else { decode_globally(e[0] as u32, e[1] as u32, o[0] as u32, o[1] as u32, odd) });
    let got = match got { Ok(g) => g, Err(p) => bail!("panic", "{v}: {p}") };
    match &got {
        Ok((lat, lon)) => {
            let (lat, lon) = (lat.value(), lon.value());
            ensure!((-90.0..=90.0).contains(&lat) && (-180.0..=180.0).contains(&lon), "nowhere", "{v} is at {lat}, {lon}");
            if st(v, "mode") == "far" { cov("far pairs decoded"); return Ok(()); }
            if !local { ensure!(!b(v, "straddles"), "straddle", "{v}: the pair straddles a zone boundary, got {lat}, {lon}"); }
            let (wl, wn) = (w[0] as f64 / 1e3, w[1] as f64 / 1e3);
            // half a unit of the last bit
            let (tl, tn) = (6.11 / 262_144.0 * 1.001, 360.0 / n as f64 / 262_144.0 * 1.001);
            ensure!((lat - wl).abs() <= tl, "latitude", "{v}: latitude {lat}, expected {wl}");
            ensure!(turn(lon - wn).abs() <= tn, "longitude", "{v}: longitude {lon}, expected {wn}");
            cov(if local { "local" } else { "pairs" });
        }
        Err(x) => {
            let may = match st(v, "mode") { "far" => true, "local" => false, _ => b(v, "straddles") };
            ensure!(may, "refused", "{v}: {x}");
            cov("refused");
        }
    }
    Ok(())
}

/// The frame of a downlink format, an address and a message: the parity is the remainder of a long division.
fn frame(df: u64, ca: u64, icao: u64, me: &[Value]) -> Vec<bool> {
    let mut s: Vec<bool> = vec![];
    let mut put = |v: u64, n: u64| for k in (0..n).rev() { s.push(v >> k & 1 == 1) };
    put(df, 5); put(ca, 3); put(icao, 24);
    for f in me { put(f[0].as_u64().unwrap(), f[1].as_u64().unwrap()) }
    assert_eq!(s.len(), 88);
    let mut r = s.clone();
    r.extend([false; 24]);
    const POLY: &[u8; 25] = b"1111111111111010000001001";
    for k in 0..88 { if r[k] { for (j, c) in POLY.iter().enumerate() { r[k + j] ^= *c == b'1' } } }
    s.extend(&r[88..]);
    s
}
fn hex(bits: &[bool], lower: bool) -> String {
    bits.chunks(4).map(|c| { let n = c.iter().fold(0, |a, b| a * 2 + *b as u32); let d = char::from_digit(n, 16).unwrap(); if lower { d } else { d.to_ascii_uppercase() } }).collect()
}
pub fn replay_adsb(s: &Value) -> Outcome {
    let v = &s["v"];
    let (ok, bits) = (b(v, "ok"), arr(v, "bits"));
    let mode = st(s, "mode");
    if mode == "altitude" {
        let got = decode_altitude(i(v, "code") as u16).map(|m| m.value());
        let want = arr(v, "feet").first().map(|f| f.as_f64().unwrap() * 0.3048);
        ensure!(got.is_some() == want.is_some() && (got.unwrap_or(0.0) - want.unwrap_or(0.0)).abs() < 1e-9, "altitude", "{v} is {got:?}");
        cov("altitudes");
        return Ok(());
    }
    let (df, ca, icao) = if mode == "format" { (i(v, "df") as u64, i(v, "ca") as u64, i(v, "icao") as u64) } else { (17, 5, 0x4840D6) };
    let mut f = frame(df, ca, icao, bits);
    if mode == "damage" { for p in ints(&v["flips"]) { f[p as usize - 1] ^= true } }
    let mut text = hex(&f, mode == "format" && st(v, "case") == "lower");
    if mode == "format" { text = format!("{text}00").chars().take(i(v, "len") as usize).collect() }
    let p = match guard(|| parse_frame(&text)) { Ok(p) => p, Err(e) => bail!("panic", "{text}: {e}") };
    if mode == "damage" || mode == "format" {
        ensure!(p.is_ok() == ok, "frame", "{s}: {text} gave {p:?}");
        if let Ok(p) = p {
            ensure!(p.downlink_format() as u64 == df && p.icao24() as u64 == icao && p.type_code() == 11, "header", "{s}: {p:?}");
        }
        // characters that are no hexadecimal digits, where the bad nibble stands
        let at = (text.len() * 7 + icao as usize) % text.len();
        for c in ["g", "é", " ", "-"] {
            let t = format!("{}{c}{}", &text[..at], &text[(at + c.len()).min(text.len())..]);
            match guard(|| parse_frame(&t)) { Ok(r) => ensure!(r.is_err(), "hex", "{t:?} was accepted"), Err(e) => bail!("panic", "{t:?}: {e}") }
        }
        cov("frames");
        return Ok(());
    }
    let p = match p { Ok(p) => p, Err(e) => bail!("refused", "{s}: {text}: {e}") };
    match mode {
        "velocity" => match (decode_airborne_velocity(&p), ok) {
            (Err(_), false) => {}
            (Ok(m), true) => {
                let (e, n) = (i(v, "ew") as f64 * 0.514444, i(v, "ns") as f64 * 0.514444);
                let known = b(v, "known");
                ensure!(m.ground_speed_mps.is_some() == known, "known", "{v}: {m:?}");
                if known { ensure!((m.ground_speed_mps.unwrap().value() - e.hypot(n)).abs() < 1e-3, "speed", "{v}: {m:?}") }
                ensure!(m.heading.is_some() == (known && e.hypot(n) > 0.0), "heading", "{v}: {m:?}");
                if let Some(h) = m.heading {
                    let w = e.atan2(n).to_degrees();
                    ensure!((0.0..=360.0).contains(&h.value()) && turn(h.value() - w).abs() < 1e-9, "heading", "{v}: {m:?}, expected {w}");
                }
                let climb = arr(v, "climb").first().map(|c| c.as_f64().unwrap() * 0.00508);
                ensure!(m.vertical_rate_mps.map(|r| r.value()).is_some() == climb.is_some() && (m.vertical_rate_mps.map_or(0.0, |r| r.value()) - climb.unwrap_or(0.0)).abs() < 1e-9, "climb", "{v}: {m:?}");
            }
            (r, _) => bail!("velocity", "{v}: {r:?}"),
        },
        "ident" => match (decode_identification(&p), ok) {
            (Err(_), false) => {}
            (Ok(m), true) => {
                let w: String = ints(&v["codes"]).iter().map(|c| match c { 1..=26 => (b'A' + *c as u8 - 1) as char, 48..=57 => (*c as u8) as char, _ => ' ' }).collect();
                ensure!(m.callsign == w.trim_end() && m.category as i64 == i(v, "category"), "callsign", "{v}: {m:?}, expected {w:?}");
            }
            (r, _) => bail!("ident", "{v}: {r:?}"),
        },
        _ => match (decode_airborne_position(&p), ok) {
            (Err(_), false) => {}
            (Ok(m), true) => ensure!(
                m.surveillance_status as i64 == i(v, "ss") && m.single_antenna as i64 == i(v, "nic") && m.encoded_altitude as i64 == i(v, "alt") && m.cpr_odd as i64 == i(v, "odd") && m.cpr_lat as i64 == i(v, "lat") && m.cpr_lon as i64 == i(v, "lon"),
                "position", "{v}: {m:?}"
            ),
            (r, _) => bail!("position", "{v}: {r:?}"),
        },
    }
    cov("messages");
    Ok(())
}
