//! The same day in every format that names days.
use crate::common::*;
use crate::gnss::nav_block;
use crate::laser::{ns_of, off, ymd, BACK};
use crate::{bail, ensure};
use serde_json::Value;
use siderust::formats::ccsds::oem::{read_oem, read_oem_xml, write_oem, write_oem_xml, OemMetadata, OemState};
use siderust::formats::igs::orbex::read_orbex;
use siderust::formats::igs::sinex::read_sinex;
use siderust::formats::igs::sp3::{read_sp3, write_sp3};
use siderust::formats::ilrs::cpf::{parse_cpf_with_mode, write_cpf};
use siderust::formats::ilrs::crd::parse_crd_with_mode;
use siderust::formats::rinex::doris::read_rinex_doris;
use siderust::formats::rinex::nav::{parse_rinex_nav_with_mode, write_rinex_nav};
use siderust::formats::rinex::obs::{read_rinex_obs, write_rinex_obs};
use siderust::formats::ParseMode;

struct Day { y: i64, m: i64, d: i64, doy: i64, mjd: i64, sod: i64, h: i64, mi: i64, s: i64, t: i128 }
fn day(v: &Value) -> Day {
    let (y, m, d, sod) = (i(v, "y"), i(v, "m"), i(v, "d"), i(v, "sod"));
    let mjd = i(v, "mjd");
    // nanoseconds since 1970-01-01, Modified Julian Date 40587
    let t = ((mjd - 40_587) as i128 * 86_400 + sod as i128) * 1_000_000_000;
    debug_assert!(ns_of(ymd(y as i32, m as u32, d as u32), sod as f64) == t);
    Day { y, m, d, doy: i(v, "doy"), mjd, sod, h: sod / 3600, mi: sod / 60 % 60, s: sod % 60, t }
}
fn labelled(body: &str, label: &str) -> String { format!("{body:<60}{label}\n") }

pub fn replay_ccsds(v: &Value) -> Outcome {
    let x = day(v);
    let jd = x.mjd as f64 + 2_400_000.5 + x.sod as f64 / 86_400.0;
    let e = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.25", x.y, x.m, x.d, x.h, x.mi, x.s);
    let meta = OemMetadata { object_id: "1".into(), object_name: "A".into(), ref_frame: "GCRF".into(), time_system: "TT".into(), center_name: "EARTH".into() };
    let head = "CCSDS_OEM_VERS = 3.0\nCREATION_DATE = X\nORIGINATOR = Y\nMETA_START\nOBJECT_NAME = A\nOBJECT_ID = 1\nCENTER_NAME = EARTH\nREF_FRAME = GCRF\nTIME_SYSTEM = TT\nMETA_STOP\n";
    let near = |what: &str, got: f64, sub: f64| -> Outcome {
        let w = jd + sub / 86_400.0;
        ensure!((got - w).abs() < 1e-9, "date", "{what}: {e} is {got}, expected {w}");
        Ok(())
    };
    match read_oem(format!("{head}{e} 1 2 3 4 5 6\n").as_bytes()) { Ok(f) => near("OEM", f.segments[0].states[0].epoch_jd, 0.25)?, Err(r) => bail!("refused", "OEM {e}: {r}") }
    // half a second before that second, written: the day before when it is midnight
    let st = [OemState::new(jd - 0.5 / 86_400.0, [7000.0, 0.0, 0.0], [0.0, 7.5, 0.0])];
    let (mut k, mut m) = (Vec::new(), Vec::new());
    ensure!(write_oem(&mut k, &meta, &st).is_ok() && write_oem_xml(&mut m, &meta, &st).is_ok(), "write", "writing {e} failed");
    match read_oem(&k[..]) { Ok(f) => near("written OEM", f.segments[0].states[0].epoch_jd, -0.5)?, Err(r) => bail!("rewrite", "OEM {e}: {r}") }
    match read_oem_xml(&m[..]) { Ok(f) => near("written OEM XML", f.segments[0].states[0].epoch_jd, -0.5)?, Err(r) => bail!("rewrite", "OEM XML {e}: {r}") }
    let (k, ms) = (String::from_utf8_lossy(&k), format!("{}", chrono::DateTime::from_timestamp_millis((x.t / 1_000_000) as i64 - 500).unwrap().format("%Y-%m-%dT%H:%M:%S%.6f")));
    let close = |line: &str| line.split_whitespace().next().and_then(|w| chrono::NaiveDateTime::parse_from_str(w, "%Y-%m-%dT%H:%M:%S%.f").ok()).is_some_and(|t| (t.and_utc().timestamp_micros() - (x.t / 1000) as i64 + 500_000).abs() < 100);
    ensure!(k.lines().any(close), "print", "written OEM does not name {ms}:\n{k}");
    cov("days");
    Ok(())
}

pub fn replay_laser(v: &Value) -> Outcome {
    let x = day(v);
    let civil = format!("{} {} {} {} {} {}.5", x.y, x.m, x.d, x.h, x.mi, x.s);
    let (t, half) = (x.t, 500_000_000);
    match read_sp3(format!("#c\n*  {civil}\nPG01 1 2 3 4\n").as_bytes()) {
        Ok(f) => {
            ensure!(off(f.epochs[0].time, t + half).abs() <= 1, "date", "SP3 {civil} is off by {} ns", off(f.epochs[0].time, t + half));
            let mut o = Vec::new();
            ensure!(write_sp3(&mut o, &f).is_ok(), "write", "writing {civil} failed");
            match read_sp3(&o[..]) { Ok(g) => ensure!(off(g.epochs[0].time, t + half).abs() <= BACK, "date", "SP3 {civil} written is off by {} ns", off(g.epochs[0].time, t + half)), Err(r) => bail!("rewrite", "SP3 {civil}: {r}") }
        }
        Err(r) => bail!("refused", "SP3 {civil}: {r}"),
    }
    match parse_cpf_with_mode(&format!("H1 CPF 2 A 2024 1 1 0 1\nH2 7603901 1155 8820 2024 1 1 0 0 0 2024 1 2 0 0 0 60 1 ITRF\n10 0 {} {}.5 0 1 2 3\n99\n", x.mjd, x.sod), ParseMode::Strict) {
        Ok(f) => {
            ensure!(off(f.ephemeris.entries[0].epoch, t + half).abs() <= 1, "date", "CPF {} {} is off by {} ns", x.mjd, x.sod, off(f.ephemeris.entries[0].epoch, t + half));
            let mut o = Vec::new();
            ensure!(write_cpf(&f, &mut o).is_ok(), "write", "writing CPF {civil} failed");
            let o = String::from_utf8_lossy(&o).to_string();
            match parse_cpf_with_mode(&o, ParseMode::Strict) { Ok(g) => ensure!(off(g.ephemeris.entries[0].epoch, t + half).abs() <= 500_000 + BACK, "date", "CPF {} {} written is off:\n{o}", x.mjd, x.sod), Err(r) => bail!("rewrite", "CPF {civil}: {r}\n{o}") }
        }
        Err(r) => bail!("refused", "CPF {civil}: {r}"),
    }
    // a pass that starts at noon or at midnight, whichever is before the point by less than half a day
    let c = format!("H1 CRD 2 2024 1 1 0\nH2 A 1 2 3 4\nH3 b 1 2 3 4\nH4 1 {} {} {} {} 0 0 {} 12 31 23 59 59 0 0 0 0 1 0\n11 {}.5 0.05\nH8\n", x.y, x.m, x.d, x.sod / 43_200 * 12, x.y, x.sod);
    match parse_crd_with_mode(&c, ParseMode::Strict) {
        Ok(f) => {
            ensure!(f.normal_points.len() == 1 && f.normal_points[0].epoch.is_some_and(|e| off(e, t + half).abs() <= 1), "date", "CRD {civil}: {:?}", f.normal_points);
            ensure!(f.session_date.is_some_and(|e| off(e, t - x.sod as i128 * 1_000_000_000).abs() <= 1), "date", "CRD session of {civil}");
        }
        Err(r) => bail!("refused", "CRD {civil}: {r}"),
    }
    match read_orbex(format!("%=ORBEX  0.09\n#ORB\n## {} {} {}.5\n G01 1 2 3\n", x.y, x.doy, x.sod).as_bytes(), ParseMode::Strict) {
        Ok(f) => { let w = x.mjd as f64 + (x.sod as f64 + 0.5) / 86_400.0; ensure!(f.orbits.len() == 1 && (f.orbits[0].epoch_mjd - w).abs() < 1e-10, "date", "ORBEX {} {}: {:?}, expected {w}", x.y, x.doy, f.orbits) }
        Err(r) => bail!("refused", "ORBEX {civil}: {r}"),
    }
    cov("days");
    Ok(())
}

pub fn replay_rinex(v: &Value) -> Outcome {
    let x = day(v);
    let (t, half) = (x.t, 500_000_000);
    let civil = format!("{:4} {:02} {:02} {:02} {:02} {:02}", x.y, x.m, x.d, x.h, x.mi, x.s);
    let n = labelled("     3.04           N: GNSS NAV DATA    M", "RINEX VERSION / TYPE") + &labelled("", "END OF HEADER") + &nav_block(1, "plain", &civil).join("\n") + "\n";
    match parse_rinex_nav_with_mode(&n, ParseMode::Strict) {
        Ok(file) => { let f = &file.gps;
            ensure!(f.len() == 1 && off(f[0].toc, t).abs() <= 1, "date", "RINEX navigation {civil}: {:?}", f.first().map(|r| off(r.toc, t)));
            let mut o = Vec::new();
            ensure!(write_rinex_nav(&mut o, &file).is_ok(), "write", "writing {civil} failed");
            match parse_rinex_nav_with_mode(&String::from_utf8_lossy(&o), ParseMode::Strict) { Ok(g) => { let g = g.gps; ensure!(off(g[0].toc, t).abs() <= BACK, "date", "RINEX navigation {civil} written is off by {} ns", off(g[0].toc, t)) } Err(r) => bail!("rewrite", "navigation {civil}: {r}") }
        }
        Err(r) => bail!("refused", "RINEX navigation {civil}: {r}"),
    }
    let o = labelled("     3.04           OBSERVATION DATA    M", "RINEX VERSION / TYPE") + &labelled("G    1 C1C", "SYS / # / OBS TYPES") + &labelled("", "END OF HEADER") + &format!("> {civil}.5000000  0  1\nG01  20000000.125\n");
    match read_rinex_obs(o.as_bytes()) {
        Ok(f) => {
            ensure!(f.epochs.len() == 1 && off(f.epochs[0].time, t + half).abs() <= 1, "date", "RINEX observation {civil}: {:?}", f.epochs.first().map(|e| off(e.time, t + half)));
            let mut o = Vec::new();
            ensure!(write_rinex_obs(&mut o, &f).is_ok(), "write", "writing {civil} failed");
            match read_rinex_obs(&o[..]) { Ok(g) => ensure!(off(g.epochs[0].time, t + half).abs() <= 100 + BACK, "date", "RINEX observation {civil} written is off by {} ns", off(g.epochs[0].time, t + half)), Err(r) => bail!("rewrite", "observation {civil}: {r}") }
        }
        Err(r) => bail!("refused", "RINEX observation {civil}: {r}"),
    }
    let d = labelled("     3.00           D                   D", "RINEX VERSION / TYPE") + &labelled("", "END OF HEADER") + &format!("> {civil}.500000000  0  1\nD01 1.0 2.0\n");
    match read_rinex_doris(d.as_bytes()) {
        Ok(f) => { let w = x.mjd as f64 + (x.sod as f64 + 0.5) / 86_400.0; ensure!(f.observations.len() == 1 && (f.observations[0].epoch_mjd - w).abs() < 1e-9, "date", "DORIS {civil}: {:?}, expected {w}", f.observations) }
        Err(r) => bail!("refused", "DORIS {civil}: {r}"),
    }
    cov("days");
    Ok(())
}

/// SINEX years have two digits: 1951 to 2050.
pub fn replay_sinex(v: &Value) -> Outcome {
    let x = day(v);
    if !(1951..=2050).contains(&x.y) { return Ok(()); }
    let e = format!("{:02}:{:03}:{:05}", x.y % 100, x.doy, x.sod);
    let l = |c: char| format!("     1 STA{c}   GRAZ  A    1 {e} m    2  1.00000000000000E+06 1.0E-03\n");
    match read_sinex(format!("%=SNX 2.02 IGN 24:100:00000 IGN 24:001:00000 24:060:00000 C 00012 2 X V\n+SOLUTION/ESTIMATE\n{}{}{}-SOLUTION/ESTIMATE\n%ENDSNX\n", l('X'), l('Y'), l('Z')).as_bytes(), ParseMode::Strict) {
        Ok(f) => { let w = x.mjd as f64 + x.sod as f64 / 86_400.0; ensure!(f.stations.len() == 1 && (f.stations[0].ref_epoch_mjd - w).abs() < 1e-9, "date", "SINEX {e}: {:?}, expected {w}", f.stations.first().map(|s| s.ref_epoch_mjd)) }
        Err(r) => bail!("refused", "SINEX {e}: {r}"),
    }
    cov("days");
    Ok(())
}
