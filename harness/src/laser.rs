//! Precise ephemerides and laser ranging files: SP3, CPF, CRD and ORBEX.
use crate::common::*;
use crate::{bail, ensure};
use chrono::{NaiveDate, NaiveDateTime, TimeDelta};
use serde_json::Value;
use siderust::formats::igs::orbex::read_orbex;
use siderust::formats::igs::sp3::{read_sp3, write_sp3, Sp3Epoch, Sp3Stream};
use siderust::formats::ilrs::cpf::{parse_cpf_with_mode, write_cpf, CpfFile};
use siderust::formats::ilrs::crd::parse_crd_with_mode;
use siderust::formats::ParseMode;
use siderust::time::{Time, UTC};

/// Nanoseconds from a civil instant, itself in nanoseconds since 1970, to an instant.
pub fn off(t: Time<UTC>, ns: i128) -> i128 {
    let c = chrono::DateTime::from_timestamp(ns.div_euclid(1_000_000_000) as i64, ns.rem_euclid(1_000_000_000) as u32).unwrap();
    ((t - Time::<UTC>::try_from_chrono(c).expect("civil instant")).value() * 1e9).round() as i128
}
/// What conversion back to the calendar loses (the time library goes through a Julian date).
pub const BACK: i128 = 50_000;
pub fn ns_of(day: NaiveDate, sod: f64) -> i128 { let t: NaiveDateTime = day.and_hms_opt(0, 0, 0).unwrap(); t.and_utc().timestamp() as i128 * 1_000_000_000 + (sod * 1e9).round() as i128 }
pub fn ymd(y: i32, m: u32, d: u32) -> NaiveDate { NaiveDate::from_ymd_opt(y, m, d).unwrap() }

// ---- SP3 ----
fn sp3_epoch(k: i64) -> (&'static str, i128) {
    match k {
        1 => ("2024  2 29 12 34 56.78900000", ns_of(ymd(2024, 2, 29), 45296.789)),
        2 => ("1999 12 31 23 59 59.99999999", ns_of(ymd(1999, 12, 31), 86399.99999999)),
        3 => ("2031 7 4 0 0 0", ns_of(ymd(2031, 7, 4), 0.0)),
        _ => ("2016 12 30 23 59 59.9999999996", ns_of(ymd(2016, 12, 31), 0.0)),
    }
}
fn sp3_sat(s: i64, n: i64) -> (String, &'static str, [f64; 4]) {
    let n = n as f64;
    let v = match s { 1 => [12345.678901 + n, -1.5 * n, 0.0, 0.25], 2 => [-99999.999999, n, 26000.0, 999999.999999], _ => [0.0, 0.0, 0.0, -0.000001 * n] };
    let id = ["G01", "9", "L51"][s as usize - 1];
    (format!("P{id:<3}{:14.6}{:14.6}{:14.6}{:14.6}{}", v[0], v[1], v[2], v[3], if s == 2 { " 10  9  7 101   P" } else { "" }), id, v)
}
const HEADS: [&str; 2] = ["#dP2024  1 14  0  0  0.00000000      96 ORBIT IGS14 HLM  IGS", "++         P  *"];
fn sp3_line(w: &Value, n: i64) -> String {
    match st(w, "l") {
        "head" => HEADS[i(w, "k") as usize - 1].to_string(),
        "epoch" => format!("*  {}", sp3_epoch(i(w, "k")).0),
        "sat" => sp3_sat(i(w, "k"), n).0,
        "other" => match st(w, "k") { "V" => "VG01  1.0 2.0 3.0 4.0", "EP" => "EP  55   55   55", "EV" => "EV 1 2 3", _ => "" }.to_string(),
        "eof" => "EOF".into(),
        "badepoch" => format!("*  {}", match st(w, "k") { "word" => "2024 x 1 0 0 0.0", "nan" => "2024 1 1 0 0 NaN", "minus" => "2024 1 1 0 0 -0.5", "sixty" => "2024 1 1 0 0 60.0", "feb30" => "2023 2 29 0 0 0.0", _ => "2024 1 1 0 0" }),
        _ => match st(w, "k") { "few" => "PG01 1.0 2.0 3.0", "word" => "PG01 1.0 x 3.0 4.0", _ => "PG" }.to_string(),
    }
}
fn same_sp3(what: &str, got: &[Sp3Epoch], want: &[Value], tol: i128) -> Outcome {
    ensure!(got.len() == want.len(), "epochs", "{what}: {} epochs, expected {}", got.len(), want.len());
    for (g, w) in got.iter().zip(want) {
        let t = sp3_epoch(i(w, "e")).1;
        ensure!(off(g.time, t).abs() <= tol, "epoch", "{what}: epoch off by {} ns from {t}", off(g.time, t));
        let sats = arr(w, "sats");
        ensure!(g.positions.len() == sats.len(), "sats", "{what}: {} satellites, expected {}", g.positions.len(), sats.len());
        for (p, s) in g.positions.iter().zip(sats) {
            let s = ints(s);
            let (_, id, v) = sp3_sat(s[0], s[1]);
            let x = [p.position.x().value(), p.position.y().value(), p.position.z().value(), p.clock.value()];
            ensure!(p.sat_id == id && (0..4).all(|k| (x[k] - v[k]).abs() < 1e-9), "sat", "{what}: {p:?}, expected {id} {v:?}");
        }
    }
    Ok(())
}
pub fn replay_sp3(v: &Value) -> Outcome {
    let (doc, head, epochs, bad) = (arr(v, "doc"), arr(v, "head"), arr(v, "epochs"), b(v, "bad"));
    let nl = ["\n", "\r\n"][doc.len() % 2];
    let mut t = doc.iter().enumerate().map(|(k, l)| sp3_line(l, k as i64 + 1)).collect::<Vec<_>>().join(nl);
    if head.len() % 2 == 0 && !doc.is_empty() { t.push_str(nl); }
    let heads: Vec<String> = head.iter().map(|n| sp3_line(&doc[n.as_i64().unwrap() as usize - 1], 0)).collect();
    let whole = read_sp3(t.as_bytes());
    // epoch by epoch: as far as it goes
    let mut s = match Sp3Stream::new(t.as_bytes()) { Ok(s) => s, Err(e) => bail!("stream", "{e}\n{t}") };
    ensure!(s.header() == &heads[..], "header", "stream header {:?}, expected {heads:?}", s.header());
    let mut got = Vec::new();
    let broke = loop {
        match s.next_epoch() { Ok(Some(e)) => got.push(e), Ok(None) => break false, Err(_) => break true }
        ensure!(got.len() <= doc.len(), "stream", "more epochs than lines");
    };
    ensure!(broke == bad, "stream", "stream {}, expected the opposite\n{t}", if broke { "failed" } else { "ended" });
    same_sp3("stream", &got, epochs, 1)?;
    if bad {
        ensure!(whole.is_err(), "accepted", "malformed line accepted\n{t}");
        cov("refused");
        return Ok(());
    }
    let f = match whole { Ok(f) => f, Err(e) => bail!("refused", "{e}\n{t}") };
    ensure!(f.header == heads, "header", "header {:?}, expected {heads:?}", f.header);
    same_sp3("read", &f.epochs, epochs, 1)?;
    let mut o = Vec::new();
    ensure!(write_sp3(&mut o, &f).is_ok(), "write", "writing failed");
    match read_sp3(&o[..]) {
        Ok(g) => { ensure!(g.header == heads, "rewrite", "header"); same_sp3("written", &g.epochs, epochs, BACK)?; }
        Err(e) => bail!("rewrite", "written file refused: {e}\n{}", String::from_utf8_lossy(&o)),
    }
    cov("read");
    Ok(())
}

// ---- CPF ----
fn cpf_time(k: i64) -> (&'static str, i128) {
    match k {
        1 => ("60310 43200.500", ns_of(ymd(2024, 1, 1), 43200.5)),
        2 => ("51543 86399.9996", ns_of(ymd(1999, 12, 31), 86399.9996)),
        3 => ("88068 0.000", ns_of(ymd(2099, 12, 31), 0.0)),
        _ => ("57752 3599.9999999997", ns_of(ymd(2016, 12, 30), 3600.0)),
    }
}
const H1: [&str; 2] = ["H1 CPF 2 CNES 2024 01 01 00 1", "H1 CPF  1  DGF 2019 12 31 23 6543 target notes"];
const H2: [&str; 2] = ["H2 7603901 1155 8820 2024 1 1 0 0 0 2024 1 2 0 0 0 60 1 ITRF2014", "H2 1903001 7123 44001 2024 1 1 0 0 0 2024 1 1 1 0 0 180 0 TOD"];
fn cpf_entries(what: &str, f: &CpfFile, want: &[Value], tol: i128) -> Outcome {
    ensure!(f.ephemeris.entries.len() == want.len(), "entries", "{what}: {} entries, expected {}", f.ephemeris.entries.len(), want.len());
    for (k, w) in want.iter().enumerate() {
        let w = ints(w);
        let (t, n) = (cpf_time(w[0]).1, w[1] as f64);
        let e = &f.ephemeris[k];
        let x = [e.position.x().value(), e.position.y().value(), e.position.z().value()];
        let v = [6000.125 + n, -0.001 * n, 9000.0 - n];
        ensure!(off(e.epoch, t).abs() <= tol, "epoch", "{what}: epoch off by {} ns from {t}", off(e.epoch, t));
        ensure!((0..3).all(|q| (x[q] - v[q]).abs() < 1e-9), "position", "{what}: {x:?} km, expected {v:?}");
    }
    Ok(())
}
fn cpf_head(what: &str, f: &CpfFile, h: &[i64]) -> Outcome {
    let (ver, src) = [("", ""), ("2", "CNES"), ("1", "DGF")][h[0] as usize];
    let (cospar, sic, norad, step, frame) = [("", 0, "", 0.0, ""), ("7603901", 1155, "8820", 60.0, "ITRF2014"), ("1903001", 7123, "44001", 180.0, "TOD")][h[1] as usize];
    ensure!(f.version == ver && f.source == src, "head", "{what}: H1 {:?} {:?}, expected {ver:?} {src:?}", f.version, f.source);
    ensure!(f.cospar_id == cospar && f.sic == sic && f.norad == norad && f.time_step_s == step && f.reference_frame == frame, "head",
        "{what}: H2 {:?} {} {:?} {} {:?}, expected {cospar:?} {sic} {norad:?} {step} {frame:?}", f.cospar_id, f.sic, f.norad, f.time_step_s, f.reference_frame);
    Ok(())
}
pub fn replay_cpf(v: &Value) -> Outcome {
    let (doc, h, entries, strict) = (arr(v, "doc"), ints(&v["h"]), arr(v, "entries"), b(v, "strict"));
    let mut t = String::new();
    for (n, l) in doc.iter().enumerate() {
        let (tag, k) = (l[0].as_str().unwrap(), &l[1]);
        let n1 = (n + 1) as f64;
        let xyz = format!("{:.3} {:.3} {:.3}", (6000.125 + n1) * 1e3, -0.001 * n1 * 1e3, (9000.0 - n1) * 1e3);
        t.push_str(&match tag {
            "H1" => H1[k.as_i64().unwrap() as usize - 1].to_string(),
            "H2" => H2[k.as_i64().unwrap() as usize - 1].to_string(),
            "10" => format!("10 {} {} 0 {xyz}", n % 2, cpf_time(k.as_i64().unwrap()).0),
            "99" => "99".into(),
            "other" => match k.as_str().unwrap() { "20" => "20 0 1.0 2.0 3.0".into(), "30" => "30 0 1 2 3 4.0".into(), "77" => "77 what is this".into(), _ => "   ".to_string() },
            _ => match k.as_str().unwrap() {
                "mjd" => format!("10 0 6031x 0.0 0 {xyz}"),
                "sod" => format!("10 0 60310 x 0 {xyz}"),
                "xyz" => "10 0 60310 0.0 0 1.0 y 3.0".to_string(),
                "short" => "10 0 60310 0.0 0 1.0 2.0".to_string(),
                "negsod" => format!("10 0 60310 -0.5 0 {xyz}"),
                "nansod" => format!("10 0 60310 NaN 0 {xyz}"),
                "hugesod" => format!("10 0 60310 86400.0 0 {xyz}"),
                _ => format!("10 0 9223372036854775807 0.0 0 {xyz}"),
            },
        });
        t.push_str(["\n", "\r\n"][doc.len() % 2]);
    }
    match parse_cpf_with_mode(&t, ParseMode::Strict) {
        Ok(f) => { ensure!(strict, "accepted", "strict reading accepted\n{t}"); cpf_head("strict", &f, &h)?; cpf_entries("strict", &f, entries, 1)?; }
        Err(e) => { ensure!(!strict, "refused", "strict: {e}\n{t}"); cov("refused"); }
    }
    let f = match parse_cpf_with_mode(&t, ParseMode::Permissive) { Ok(f) => f, Err(e) => bail!("permissive", "permissive reading failed: {e}\n{t}") };
    cpf_head("permissive", &f, &h)?;
    cpf_entries("permissive", &f, entries, 1)?;
    if h.iter().all(|k| *k != 0) {
        let mut o = Vec::new();
        ensure!(write_cpf(&f, &mut o).is_ok(), "write", "writing failed");
        let o = String::from_utf8_lossy(&o).to_string();
        match parse_cpf_with_mode(&o, ParseMode::Strict) {
            Ok(g) => { cpf_head("written", &g, &h)?; cpf_entries("written", &g, entries, 500_000 + BACK)?; }
            Err(e) => bail!("rewrite", "written file refused: {e}\n{o}"),
        }
        cov("written");
    }
    Ok(())
}

// ---- CRD ----
/// Session days: one per line number, each the last of a month or a year in turn.
fn crd_day(n: i64) -> NaiveDate { [ymd(2023, 12, 31), ymd(2024, 2, 28), ymd(2024, 2, 29), ymd(2023, 2, 28), ymd(2016, 12, 30), ymd(2024, 1, 1)][n as usize % 6] }
const SYS: [&str; 4] = ["std", "sy1", "sy2", "own"];
fn crd_sod(part: i64, n: i64) -> (String, f64) {
    let s = part as f64 * 10800.0;
    // a little after the part starts; once in a while within the last nanosecond of a second
    match n % 3 { 0 => (format!("{:.12}", s + 59.5), s + 59.5), 1 => (format!("{}.9999999999", s as i64 + 7), s + 8.0), _ => (format!("{}", s + 0.25), s + 0.25) }
}
pub fn replay_crd(v: &Value) -> Outcome {
    let (doc, nps, strict) = (arr(v, "doc"), arr(v, "nps"), b(v, "strict"));
    let mut t = String::from("H1 CRD 2 2024 01 01 00\nH2 GRAZ 7839 34 2 3\nH3 lageos1 1155 8820 1 0\n");
    for (k, l) in doc.iter().enumerate() {
        let n = k as i64 + 1;
        let num = |q: usize| l[q].as_i64().unwrap();
        t.push_str(&match l[0].as_str().unwrap() {
            "H4" => { let (d, p) = (crd_day(n), num(1)); format!("H4 1 {} {:02} {} {:02} 00 00 {} 12 0 0 0 0 0 0 1 0", d.format("%Y"), d.format("%m").to_string().parse::<u32>().unwrap(), d.format("%d"), p * 3, d.format("%Y")) }
            "C0" => format!("C0 0 {} a b c", SYS[num(1) as usize]),
            "11" => format!("11 {} 0.0{} {}", crd_sod(num(1), n).0, 50 + n, if num(2) != 0 { format!("own 2 1 0 3 {n} 8.5 0.1 0.0 66.5") } else { String::new() }),
            "10" => "10 100.5 0.05 std 0 0 0 0".into(),
            "bad" => match l[1].as_str().unwrap() { "sod" => "11 12x 0.05 std".into(), "tof" => "11 100.0 abc std".into(), _ => "11".to_string() },
            _ => match l[1].as_str().unwrap() { "H5" => "H5 1 24".into(), "50" => "50 std 50.0 0.1 0.2 -1.0 0".into(), _ => " ".to_string() },
        });
        t.push('\n');
    }
    t.push_str("H8\nH9\n");
    for mode in [ParseMode::Strict, ParseMode::Permissive] {
        let f = match parse_crd_with_mode(&t, mode) {
            Ok(f) => { ensure!(strict || mode == ParseMode::Permissive, "accepted", "strict reading accepted\n{t}"); f }
            Err(e) => { ensure!(!strict && mode == ParseMode::Strict, "refused", "{mode:?}: {e}\n{t}"); cov("refused"); continue; }
        };
        ensure!(f.station.name == "GRAZ" && f.station.cdp_pad == 7839 && f.station.sys_no == 34 && f.station.occ_no == 2 && f.station.time_zone == 3 && f.station_name == "GRAZ" && f.station_cdp_pad == 7839
            && f.target.name == "lageos1" && f.target.sic == 1155 && f.target.norad == "8820" && f.target.sc_flag == 1 && f.target.epoch_id == 0 && f.satellite_name == "lageos1" && f.format_version == "2", "head", "{f:?}");
        ensure!(f.session_date.is_some() == b(v, "dated"), "session", "session date {:?}", f.session_date);
        if let (Some(d), Some(k)) = (f.session_date, doc.iter().rposition(|l| l[0] == "H4")) {
            ensure!(off(d, ns_of(crd_day(k as i64 + 1), 0.0)).abs() <= 1, "session", "session date {d:?}");
        }
        ensure!(f.normal_points.len() == nps.len(), "points", "{mode:?}: {} normal points, expected {}\n{t}", f.normal_points.len(), nps.len());
        for (p, w) in f.normal_points.iter().zip(nps) {
            let (n, day) = (i(w, "n"), i(w, "day"));
            let (txt, sod) = crd_sod(i(w, "part"), n);
            let tof = format!("0.0{}", 50 + n).parse::<f64>().unwrap();
            ensure!((p.seconds_of_day.value() - txt.parse::<f64>().unwrap()).abs() < 1e-11 && p.time_of_flight.value() == tof, "values", "{p:?}");
            ensure!((p.range_m.value() - tof * 299_792_458.0 / 2.0).abs() < 1e-6, "range", "{p:?}");
            let own = i(w, "sys") == 3;
            ensure!(p.system_config_id == SYS[i(w, "sys") as usize], "system", "{p:?}, expected {}", SYS[i(w, "sys") as usize]);
            ensure!((p.epoch_event, p.filter_flag, p.data_quality, p.format_flag, p.num_raws) == if own { (2, 1, 0, 3, Some(n as u32)) } else { (0, 0, 0, 0, None) }, "fields", "{p:?}");
            ensure!(p.return_rate == own.then_some(66.5) && p.bin_rms_m.map(|m| (m.value() - 8.5e-12 * 299_792_458.0 / 2.0).abs() < 1e-15) == own.then_some(true), "fields", "{p:?}");
            let want = (day >= 0).then(|| ns_of(crd_day(i(w, "base")) + TimeDelta::days(day), sod));
            ensure!(match (p.epoch, want) { (Some(a), Some(z)) => off(a, z).abs() <= 1, (None, None) => true, _ => false }, "epoch", "{mode:?}: epoch {:?}, expected {want:?} ns\n{t}", p.epoch);
        }
        cov("read");
    }
    Ok(())
}

// ---- ORBEX ----
pub fn replay_orbex(v: &Value) -> Outcome {
    let (doc, recs, strict) = (arr(v, "doc"), arr(v, "recs"), b(v, "strict"));
    const EP: [(&str, f64); 3] = [("## 2024 60 21600.000000000", 60369.25), ("##  2023 365   86399.5", 60309.0 + 86399.5 / 86400.0), ("## 2000 366 0", 51909.0)];
    let mut t = String::from("%=ORBEX  0.09\n%%\n+EPHEMERIS/DATA\n");
    let mut sec = "none".to_string();
    for (k, l) in doc.iter().enumerate() {
        let n = k + 1;
        t.push_str(&match l[0].as_str().unwrap() {
            "sec" => { sec = l[1].as_str().unwrap().to_string(); format!("#{sec}") }
            "ep" => EP[l[1].as_i64().unwrap() as usize - 1].0.to_string(),
            "badep" => match l[1].as_str().unwrap() { "word" => "## 2024 x 0.0", "day0" => "## 2024 0 0.0", "day366" => "## 2023 366 0.0", _ => "## 2024 10" }.to_string(),
            "rec" => match sec.as_str() { "CLK" => format!(" G0{n} 1.5E-0{n}"), "ATT" => format!("  E0{n} 0.5 -0.5 0.{n} 0.0 1.0"), _ => format!(" G0{n} {n}.0E+07 -2.5E+06 {n} {}", if l[1] == "vel" { "100.0 -3.5 0.25" } else { "" }) },
            "bad" => match (sec.as_str(), l[1].as_str().unwrap()) { ("CLK", "few") | ("none", "few") => " G01", ("CLK", _) => " G01 x", ("ATT", "few") => " G01 1 2 3", ("ATT", _) => " G01 1 2 3 x", (_, "few") => " G01 1 2", _ => " G01 1 2 --3" }.to_string(),
            "other" => { if l[1] == "#XYZ" { sec = "none".into(); } match l[1].as_str().unwrap() { "#XYZ" => "#XYZ", "%%" => "%% comment", "+X" => "+FILE/INFO", "note" => "*note 1 2 3", _ => " " }.to_string() }
            _ => "%ENDORBEX".into(),
        });
        t.push_str(["\n", "\r\n"][doc.len() % 2]);
    }
    for mode in [ParseMode::Strict, ParseMode::Permissive] {
        let f = match read_orbex(t.as_bytes(), mode) {
            Ok(f) => { ensure!(strict || mode == ParseMode::Permissive, "accepted", "strict reading accepted\n{t}"); f }
            Err(e) => { ensure!(!strict && mode == ParseMode::Strict, "refused", "{mode:?}: {e}\n{t}"); cov("refused"); continue; }
        };
        ensure!(f.version == "0.09", "head", "version {}", f.version);
        let of = |s: &str| recs.iter().filter(|r| st(r, "sec") == s).map(|r| (i(r, "n"), EP[i(r, "ep") as usize - 1].1, b(r, "vel"))).collect::<Vec<_>>();
        let (o, c, a) = (of("ORB"), of("CLK"), of("ATT"));
        ensure!(f.orbits.len() == o.len() && f.clocks.len() == c.len() && f.attitudes.len() == a.len(), "records", "{mode:?}: {} orbits, {} clocks, {} attitudes, expected {} {} {}\n{t}", f.orbits.len(), f.clocks.len(), f.attitudes.len(), o.len(), c.len(), a.len());
        for (g, (n, e, vel)) in f.orbits.iter().zip(&o) {
            let ok = g.sat == format!("G0{n}") && (g.epoch_mjd - e).abs() < 1e-10 && g.pos_m == [*n as f64 * 1e7, -2.5e6, *n as f64] && g.vel_m_s == vel.then_some([100.0, -3.5, 0.25]);
            ensure!(ok, "orbit", "{g:?}, expected line {n} at {e}\n{t}");
        }
        for (g, (n, e, _)) in f.clocks.iter().zip(&c) {
            ensure!(g.sat == format!("G0{n}") && (g.epoch_mjd - e).abs() < 1e-10 && (g.bias_s - 1.5 * 10f64.powi(-*n as i32)).abs() < 1e-14, "clock", "{g:?}, expected line {n} at {e}");
        }
        for (g, (n, e, _)) in f.attitudes.iter().zip(&a) {
            ensure!(g.sat == format!("E0{n}") && (g.epoch_mjd - e).abs() < 1e-10 && g.quaternion == [0.5, -0.5, format!("0.{n}").parse().unwrap(), 0.0], "attitude", "{g:?}, expected line {n} at {e}");
        }
        cov("read");
    }
    Ok(())
}
