//! RINEX, SINEX, ANTEX and Earth orientation files.
use crate::common::*;
use crate::laser::{ns_of, off, ymd, BACK};
use crate::{bail, ensure};
use serde_json::Value;
use siderust::formats::iers::eop::{interpolate, read_eop_c04};
use siderust::formats::igs::antex::{read_antex, write_antex, AntexCatalog};
use siderust::formats::igs::sinex::read_sinex;
use siderust::formats::rinex::doris::read_rinex_doris;
use siderust::formats::rinex::nav::{parse_rinex_nav_with_mode, write_rinex_nav, GpsNavRecord};
use siderust::formats::rinex::obs::{read_rinex_obs, write_rinex_obs, RinexObs};
use siderust::formats::ParseMode;

fn labelled(body: &str, label: &str) -> String { format!("{body:<60}{label}") }

// ---- navigation ----
/// Clock, then five lines of orbit: typical magnitudes, a negative one in every other place.
fn nav_values(n: i64) -> [[f64; 4]; 6] {
    let s = [1.0, -1.0][n as usize % 2];
    let k = n as f64;
    [[-s * 1.234567890123e-4, s * -1.136868377216e-12, 0.0, 0.0], [k, -s * 88.4375, 4.5e-9, -s * 0.757080480654], [-4.1e-6, 0.01 + k * 1e-3, s * 9.2e-6, 5153.7], [259200.0 + k, s * -1.1e-7, -s * 2.5, 3.3e-8], [0.96, s * 220.5, -s * 0.75, -8.1e-9], [s * -1.5e-10, 1.0, 2295.0, 0.0]]
}
fn nav_time(t: i64) -> (&'static str, i128) {
    match t { 1 => ("2024 02 29 02 00 00", ns_of(ymd(2024, 2, 29), 7200.0)), 2 => ("1999 12 31 23 59 44", ns_of(ymd(1999, 12, 31), 86384.0)), _ => ("2031  7  4  0  0  0", ns_of(ymd(2031, 7, 4), 0.0)) }
}
fn d19(v: f64, e: char) -> String {
    // D19.12 as receivers write it: a signed two-digit exponent
    let s = format!("{v:.12e}");
    let (m, x) = s.split_once('e').unwrap();
    let x: i32 = x.parse().unwrap();
    format!("{:>19}", format!("{m}{e}{}{:02}", if x < 0 { '-' } else { '+' }, x.abs()))
}
pub fn nav_block(n: i64, style: &str, time: &str) -> Vec<String> {
    let v = nav_values(n);
    let f = |x: f64| match style { "plain" => format!(" {}", d19(x, 'D')), "packed" => d19(x, 'D'), "lower" => d19(x, 'd'), _ => format!(" {x}") };
    let mut o = vec![format!("G{n:02} {time}{}", v[0][..3].iter().map(|x| f(*x)).collect::<String>())];
    for l in &v[1..] { o.push(format!("    {}", l.iter().map(|x| f(*x)).collect::<String>())); }
    o.push(format!("    {}", [2.0, 0.0, -1.1e-8, 3.0].map(f).concat()));
    o.push(format!("    {}", [252018.0, 4.0].map(f).concat()));
    o
}
fn same_nav(what: &str, got: &[GpsNavRecord], want: &[Value], tol: i128) -> Outcome {
    ensure!(got.len() == want.len(), "records", "{what}: {} records, expected {}", got.len(), want.len());
    for (g, w) in got.iter().zip(want) {
        let w = ints(w);
        let v = nav_values(w[0]);
        let t = nav_time(w[1]).1;
        ensure!(g.prn as i64 == w[0] && off(g.toc, t).abs() <= tol, "clock", "{what}: PRN {} {:?}, expected {} {}", g.prn, g.toc, w[0], nav_time(w[1]).0);
        let x = [[g.af0.value(), g.af1, g.af2, 0.0], [g.iode, g.crs.value(), g.delta_n.value(), g.m0.value()], [g.cuc.value(), g.e, g.cus.value(), g.sqrt_a],
            [g.toe.value(), g.cic.value(), g.omega0.value(), g.cis.value()], [g.i0.value(), g.crc.value(), g.omega.value(), g.omega_dot.value()], [g.idot.value(), 1.0, 2295.0, 0.0]];
        ensure!(x.iter().flatten().zip(v.iter().flatten()).all(|(a, b)| (a - b).abs() <= 1e-11 * b.abs()), "fields", "{what}: {x:?}, expected {v:?}");
    }
    Ok(())
}
pub fn replay_nav(v: &Value) -> Outcome {
    let (doc, recs, strict) = (arr(v, "doc"), arr(v, "recs"), b(v, "strict"));
    let mut l = vec![labelled("     3.04           N: GNSS NAV DATA    M", "RINEX VERSION / TYPE")];
    if b(v, "header") { l.push(labelled("", "END OF HEADER")); }
    for (k, x) in doc.iter().enumerate() {
        let n = k as i64 + 1;
        let s = x[1].as_str().unwrap_or("");
        match x[0].as_str().unwrap() {
            "gps" => l.extend(nav_block(n, s, nav_time(x[2].as_i64().unwrap()).0)),
            "cut" => l.extend(nav_block(n, "plain", nav_time(1).0).into_iter().take(x[1].as_i64().unwrap() as usize)),
            "bad" => {
                let mut r = nav_block(n, "plain", match s { "year" => "20x4 01 01 00 00 00", "feb30" => "2023 02 29 00 00 00", "sec60" => "2023 01 01 00 00 60", "nansec" => "2023 01 01 00 00 NaN", "minus" => "2023 01 01 00 00 -0.5", _ => nav_time(1).0 });
                match s { "prn0" => r[0].replace_range(1..3, "00"), "prnx" => r[0].replace_range(1..3, "x1"), "prnaccent" => r[0].replace_range(1..3, "1é"), "few0" => r[0].truncate(40), "few5" => r[5] = "    ".into(), _ => {} }
                if let Some(k) = s.strip_prefix("few").and_then(|k| k.parse::<usize>().ok()) { if (1..5).contains(&k) { r[k].truncate(4 + 3 * 20); } }
                if let Some(k) = s.strip_prefix("word").and_then(|k| k.parse::<usize>().ok()) { r[k] = r[k].replacen("D-", "Dx", 1).replacen("D+", "Dx", 1); }
                l.extend(r);
            }
            _ => match s {
                "R" => { let r = nav_block(n, "packed", nav_time(1).0); l.push(format!("R{}", &r[0][1..])); l.extend_from_slice(&r[1..4]); }
                "E" => { let r = nav_block(n, "packed", nav_time(1).0); l.push(format!("E{}", &r[0][1..])); l.extend_from_slice(&r[1..8]); }
                "short" => l.push("G1".into()),
                _ => l.push(" é n'est pas un satellite".into()),
            },
        }
    }
    let t = l.join(["\n", "\r\n"][doc.len() % 2]);
    for mode in [ParseMode::Strict, ParseMode::Permissive] {
        match parse_rinex_nav_with_mode(&t, mode) {
            Ok(f) => {
                ensure!(strict || mode == ParseMode::Permissive, "accepted", "strict reading accepted\n{t}");
                same_nav(&format!("{mode:?}"), &f.gps, recs, 1)?;
                if mode == ParseMode::Permissive {
                    let mut o = Vec::new();
                    ensure!(write_rinex_nav(&mut o, &f).is_ok(), "write", "writing failed");
                    let o = String::from_utf8_lossy(&o).to_string();
                    match parse_rinex_nav_with_mode(&o, ParseMode::Strict) { Ok(g) => same_nav("written", &g.gps, recs, BACK)?, Err(e) => bail!("rewrite", "written file refused: {e}\n{o}") }
                }
                cov("read");
            }
            Err(e) => { ensure!(!strict && mode == ParseMode::Strict, "refused", "{mode:?}: {e}\n{t}"); cov("refused"); }
        }
    }
    Ok(())
}

// ---- observations ----
fn obs_time(t: i64) -> (&'static str, i128) {
    match t { 1 => ("2024 02 29 12 34 30.0000000", ns_of(ymd(2024, 2, 29), 45270.0)), 2 => ("1999 12 31 23 59 59.9999999", ns_of(ymd(1999, 12, 31), 86399.9999999)), _ => ("2016 12 30 23 59 59.99999999996", ns_of(ymd(2016, 12, 31), 0.0)) }
}
fn obs_types(sys: &str, g: i64) -> Vec<String> {
    let n = match sys { "G" => g as usize, "R" => 2, _ => 0 };
    (0..n).map(|k| format!("{}{}{}", ["C", "L", "D", "S"][k % 4], 1 + k / 4 % 9, ["C", "W", "X"][k % 3 + 0])).map(|s| s.to_string()).collect()
}
fn obs_value(n: i64, k: usize) -> f64 { [20_000_000.125, -130_000_000.875, -1234.5, 45.25][k % 4] + n as f64 * 16.0 + k as f64 }
fn given(mask: &str, k: usize, len: usize) -> bool { match mask { "all" => true, "first" => k == 0, "last" => k + 1 == len, "odd" => k % 2 == 1, _ => false } }
fn obs_rows(n: i64, sys: &str, mask: &str, g: i64) -> String {
    let ty = obs_types(sys, g);
    let mut r = format!("{sys}{n:02}");
    for k in 0..ty.len() {
        // fields are usually full; some are written short, at the left of their columns
        if given(mask, k, ty.len()) && (n as usize + k) % 4 == 3 { r.push_str(&format!("{:<16}", obs_value(n, k))); }
        else if given(mask, k, ty.len()) { r.push_str(&format!("{:14.3}{}{}", obs_value(n, k), [" ", "1"][k % 2], [" ", "7"][k / 2 % 2])); } else { r.push_str(&" ".repeat(16)); }
    }
    if n % 2 == 0 { r.trim_end().to_string() } else { r }
}
fn same_obs(what: &str, f: &RinexObs, head: &Value, epochs: &[Value], tol: i128) -> Outcome {
    let g = i(head, "g");
    ensure!(f.marker == if b(head, "marker") { "STATION 7" } else { "" }, "marker", "{what}: marker {:?}", f.marker);
    ensure!(f.approx_xyz_m.map(|x| x.map(|c| c.value())) == b(head, "approx").then_some([4027893.5, -307045.75, 4919475.0625].map(|x: f64| (x * 1e4).round() / 1e4)), "approx", "{what}: {:?}", f.approx_xyz_m);
    ensure!(f.interval_s.map(|s| s.value()) == b(head, "interval").then_some(30.0), "interval", "{what}: {:?}", f.interval_s);
    for s in ["G", "R"] { ensure!(f.obs_types.get(&s.chars().next().unwrap()) == Some(&obs_types(s, g)), "types", "{what}: {:?}", f.obs_types); }
    ensure!(f.obs_types.len() == 2, "types", "{what}: {:?}", f.obs_types);
    ensure!(f.epochs.len() == epochs.len(), "epochs", "{what}: {} epochs, expected {}", f.epochs.len(), epochs.len());
    for (e, w) in f.epochs.iter().zip(epochs) {
        let t = obs_time(i(w, "t")).1;
        ensure!(off(e.time, t).abs() <= tol, "epoch", "{what}: epoch off by {} ns from {t}", off(e.time, t));
        let sats = arr(w, "sats");
        ensure!(e.satellites.len() == sats.len(), "sats", "{what}: {} satellites, expected {}", e.satellites.len(), sats.len());
        for s in sats {
            let (sys, mask, n) = (s[0].as_str().unwrap(), s[1].as_str().unwrap(), s[2].as_i64().unwrap());
            let ty = obs_types(sys, g);
            let want: std::collections::HashMap<String, f64> = ty.iter().enumerate().filter(|(k, _)| given(mask, *k, ty.len())).map(|(k, t)| (t.clone(), obs_value(n, k))).collect();
            let got = e.satellites.get(&format!("{sys}{n:02}"));
            ensure!(got.is_some_and(|m| m.len() == want.len() && want.iter().all(|(k, v)| m.get(k).is_some_and(|x| (x - v).abs() < 1e-6))), "values", "{what}: {sys}{n:02} {mask}: {got:?}, expected {want:?}");
        }
    }
    Ok(())
}
pub fn replay_obs(v: &Value) -> Outcome {
    let (head, doc, epochs, ok) = (&v["head"], arr(v, "doc"), arr(v, "epochs"), b(v, "ok"));
    let g = i(head, "g");
    let mut l = vec![labelled("     3.04           OBSERVATION DATA    M (MIXED)", "RINEX VERSION / TYPE")];
    if b(head, "marker") { l.push(labelled("STATION 7", "MARKER NAME")); }
    if b(head, "approx") { l.push(labelled("  4027893.5000  -307045.7500  4919475.0625", "APPROX POSITION XYZ")); }
    for s in ["G", "R"] {
        for (k, c) in obs_types(s, g).chunks(13).enumerate() {
            let first = if k == 0 { format!("{s}{:>5}", obs_types(s, g).len()) } else { " ".repeat(6) };
            l.push(labelled(&format!("{first} {}", c.join(" ")), "SYS / # / OBS TYPES"));
        }
    }
    if b(head, "interval") { l.push(labelled("    30.000", "INTERVAL")); }
    l.push(labelled("", "END OF HEADER"));
    for (k, x) in doc.iter().enumerate() {
        let n = k as i64 + 1;
        let rows = doc[k + 1..].iter().take_while(|y| y[0] == "row").count();
        match (x[0].as_str().unwrap(), x[1].as_str().unwrap_or("")) {
            ("ep", _) => l.push(format!("> {}  {} {rows:>2}", obs_time(x[1].as_i64().unwrap()).0, n % 2)),
            ("row", s) => l.push(obs_rows(n, s, x[2].as_str().unwrap(), g)),
            ("bad", s) => l.push(format!("> {}  0  0", match s { "feb30" => "2023 02 29 00 00 00.0", "hour" => "2023 01 01 24 00 00.0", "minute" => "2023 01 01 00 60 00.0", "sec60" => "2023 01 01 00 00 60.0", "nan" => "2023 01 01 00 00 NaN", _ => "2023 01 01 xx 00 00.0" })),
            (_, "event") => { l.push("> 2024 01 01 00 00 00.0000000  4  2".into()); l.push(labelled("ANOTHER STATION", "COMMENT")); l.push(labelled("G99", "COMMENT")); }
            (_, "slip") => { l.push("> 2024 01 01 00 00 00.0000000  6  1".into()); l.push(obs_rows(99, "G", "all", g)); }
            (_, "COMMENT") => l.push(labelled("nothing", "COMMENT")),
            (_, "accent") => l.push("  é è à nothing".into()),
            _ => l.push(String::new()),
        }
    }
    let t = l.join(["\n", "\r\n"][doc.len() % 2]) + "\n";
    match read_rinex_obs(t.as_bytes()) {
        Err(e) => { ensure!(!ok, "refused", "{e}\n{t}"); cov("refused"); }
        Ok(f) => {
            ensure!(ok, "accepted", "malformed epoch accepted\n{t}");
            same_obs("read", &f, head, epochs, 1)?;
            let mut o = Vec::new();
            ensure!(write_rinex_obs(&mut o, &f).is_ok(), "write", "writing failed");
            match read_rinex_obs(&o[..]) { Ok(g) => same_obs("written", &g, head, epochs, 100 + BACK)?, Err(e) => bail!("rewrite", "written file refused: {e}\n{}", String::from_utf8_lossy(&o)) }
            cov("read");
        }
    }
    Ok(())
}

// ---- DORIS ----
pub fn replay_doris(v: &Value) -> Outcome {
    const EP: [(&str, f64); 3] = [("> 2024 02 29 06 00 00.000000000  0  1", 60369.25), (">2000 1 1 12 30 30.5 0 2", 51544.0 + 45030.5 / 86400.0), ("> 1999 12 31 23 59 59.999", 51543.0 + 86399.999 / 86400.0)];
    let mut l = vec![labelled("     3.00           D                   D", "RINEX VERSION / TYPE"), labelled("PROGRAM 1           AGENCY TWO          20240101 000000 UTC", "PGM / RUN BY / DATE"), labelled("SAT-A", "MARKER NAME"),
        labelled("1                   STAREC              ", "ANT # / TYPE"), labelled("CHAIN1              DGXX                1.00", "REC # / TYPE / VERS"), labelled("é", "COMMENT"), labelled("", "END OF HEADER")];
    for (k, x) in arr(v, "doc").iter().enumerate() {
        let n = k + 1;
        l.push(match x[0].as_str().unwrap() {
            "ep" => EP[x[1].as_i64().unwrap() as usize - 1].0.into(),
            "bad" => match x[1].as_str().unwrap() { "month13" => "> 2024 13 01 00 00 00.0 0 1", "feb30" => "> 2023 02 29 00 00 00.0 0 1", "hour" => "> 2024 01 01 24 00 00.0 0 1", "word" => "> 2024 01 01 xx 00 00.0 0 1", _ => "> 2024 01" }.into(),
            "sat" => format!("D0{}  {n}00.5 2 -3.25", x[1]),
            "empty" => format!("D0{}", x[1]),
            "more" => format!("     {n}00.5 2 -3.25"),
            _ => String::new(),
        });
    }
    let t = l.join("\n");
    let f = match read_rinex_doris(t.as_bytes()) { Ok(f) => f, Err(e) => bail!("refused", "{e}\n{t}") };
    let h = &f.header;
    ensure!([&h.version, &h.program, &h.agency, &h.marker_name, &h.antenna_type, &h.receiver_type] == ["3.00", "PROGRAM 1", "AGENCY TWO", "SAT-A", "STAREC", "DGXX"], "header", "{h:?}");
    let obs = arr(v, "obs");
    ensure!(f.observations.len() == obs.len() && f.unsupported_obs as i64 == i(v, "lost"), "observations", "{} observations and {} lost, expected {} and {}\n{t}", f.observations.len(), f.unsupported_obs, obs.len(), i(v, "lost"));
    for (g, w) in f.observations.iter().zip(obs) {
        let w = ints(w);
        let raw = if w[2] == 0 { String::new() } else { format!("{}00.5 2 -3.25", w[2]) };
        ensure!((g.epoch_mjd - EP[w[0] as usize - 1].1).abs() < 1e-9 && g.satellite_id == format!("D0{}", w[1]) && g.raw_measurements == raw, "observation", "{g:?}, expected {w:?}\n{t}");
    }
    cov("read");
    Ok(())
}

// ---- SINEX ----
pub fn replay_sinex(v: &Value) -> Outcome {
    let (doc, strict, stations) = (arr(v, "doc"), b(v, "strict"), arr(v, "stations"));
    const KEY: [(&str, &str, &str); 3] = [("GRAZ", "A", "1"), ("GRAZ", "A", "2"), ("GRAZ", "B", "1")];
    const EP: [(&str, f64); 4] = [("24:060:21600", 60369.25), ("00:001:00000", 51544.0), ("99:365:43200", 51543.5), ("79:216:00000", 44089.0)];
    let mut l = vec!["%=SNX 2.02 IGN 24:100:00000 IGN 24:001:00000 24:060:00000 C 00012 2 X V".to_string(), "*-----".into()];
    let val = |n: i64, c: usize| n as f64 * 1000.0 + c as f64 + 0.125;
    for (k, x) in doc.iter().enumerate() {
        let n = k as i64 + 1;
        let est = |t: &str, key: i64, e: i64, c: usize, s: f64| { let (a, p, s_) = KEY[key as usize - 1]; format!("{:>6} {t}{} {a:>4} {p:>2} {s_:>4} {} m    2 {:21.14E} 1.0E-03", 10 * n + c as i64, ["X", "Y", "Z"][c], EP[e as usize - 1].0, val(n, c) * s) };
        let num = |q: usize| x[q].as_i64().unwrap();
        match x[0].as_str().unwrap() {
            "block" => match x[1].as_str().unwrap() { "estimate" => l.push("+SOLUTION/ESTIMATE".into()), "site" => { l.push("+SITE/ID".into()); l.push(" GRAZ  A 11001M002 L GRAZ    15 29 36.1  47  4  1.7   539.4".into()) } _ => l.push("-SOLUTION/WHATEVER".into()) },
            t @ ("sta" | "vel") => for c in 0..3 { if num(2) == 0 || num(2) == c as i64 + 1 { l.push(if t == "sta" { est("STA", num(1), num(3), c, -1.0) } else { est("VEL", num(1), num(3), c, 1e-6) }); } },
            "bad" => l.push(match x[1].as_str().unwrap() { "few" => "   1 STAX GRAZ  A    1", "word" => "   1 STAX OTHR  A    1 24:060:00000 m    2 1.0x 1.0", "epoch" => "   1 STAX OTHR  A    1 24:060 m    2 1.0 1.0", _ => "   1 STAX OTHR  A    1 23:366:00000 m    2 1.0 1.0" }.into()),
            _ => l.push(match x[1].as_str().unwrap() { "*" => "*INDEX TYPE__ CODE PT SOLN _REF_EPOCH__ UNIT S __ESTIMATED VALUE____ _STD_DEV___", "%" => "% comment", _ => "   1 XPO    ---- --    1 24:060:00000 mas  2 1.0E+01 1.0E-03" }.into()),
        }
    }
    l.push("%ENDSNX".into());
    l.push("+SOLUTION/ESTIMATE".into());
    l.push("broken".into());
    let t = l.join(["\n", "\r\n"][doc.len() % 2]);
    for mode in [ParseMode::Strict, ParseMode::Permissive] {
        let f = match read_sinex(t.as_bytes(), mode) {
            Ok(f) => { ensure!(strict || mode == ParseMode::Permissive, "accepted", "strict reading accepted\n{t}"); f }
            Err(e) => { ensure!(!strict && mode == ParseMode::Strict, "refused", "{mode:?}: {e}\n{t}"); cov("refused"); continue; }
        };
        ensure!(f.agency == "IGN" && f.stations.len() == stations.len(), "stations", "{mode:?}: {} stations, expected {}\n{t}", f.stations.len(), stations.len());
        for w in stations {
            let key = KEY[i(w, "k") as usize - 1];
            let hit: Vec<_> = f.stations.iter().filter(|s| (&s.code[..], &s.point_code[..], &s.solution_id[..]) == key).collect();
            ensure!(hit.len() == 1, "stations", "{mode:?}: {key:?} {} times\n{t}", hit.len());
            let s = hit[0];
            let (p, q) = (ints(&w["pos"]), ints(&w["vel"]));
            let x = [s.position.x().value(), s.position.y().value(), s.position.z().value()];
            ensure!((0..3).all(|c| (x[c] + val(p[c], c)).abs() < 1e-9), "position", "{mode:?}: {x:?}, expected lines {p:?}\n{t}");
            ensure!(match s.velocity_m_yr { Some(y) => q.len() == 3 && (0..3).all(|c| (y[c] - val(q[c], c) * 1e-6).abs() < 1e-15), None => q.len() == 1 }, "velocity", "{mode:?}: {:?}, expected lines {q:?}\n{t}", s.velocity_m_yr);
            ensure!((s.ref_epoch_mjd - EP[i(w, "ep") as usize - 1].1).abs() < 1e-9, "epoch", "{mode:?}: {}, expected {:?}\n{t}", s.ref_epoch_mjd, EP[i(w, "ep") as usize - 1]);
        }
        cov("read");
    }
    Ok(())
}

// ---- ANTEX ----
pub fn replay_antex(v: &Value) -> Outcome {
    const ANT: [&str; 2] = ["BLOCK IIA           G01                 G032      1992-079A", "AOAD/M_T        NONE"];
    const FREQ: [&str; 2] = ["G01", "R02"];
    const PCO: [[f64; 3]; 2] = [[279.0, 0.0, 2319.5], [-1234.56, -99999.99, 0.01]];
    let mut l = vec![labelled("     1.4            M", "ANTEX VERSION / SYST"), labelled("A", "PCV TYPE / REFANT"), labelled("", "END OF HEADER")];
    for x in arr(v, "doc") {
        let k = x[1].as_i64().unwrap() as usize;
        match x[0].as_str().unwrap() {
            "start" => l.push(labelled("", "START OF ANTENNA")),
            "type" => { l.push(labelled(ANT[k - 1], "TYPE / SERIAL NO")); l.push(labelled("     0.0", "DAZI")); }
            "freq" => l.push(labelled(&format!("   {}", FREQ[k - 1]), "START OF FREQUENCY")),
            "neu" => l.push(labelled(&PCO[k - 1].map(|x| format!("{x:10.2}")).concat(), "NORTH / EAST / UP")),
            "rms" => { l.push(labelled(&format!("   {}", FREQ[k - 1]), "START OF FREQ RMS")); l.push(labelled("      9.99      9.99      9.99", "NORTH / EAST / UP")); l.push(labelled(&format!("   {}", FREQ[k - 1]), "END OF FREQ RMS")); }
            "grid" => l.push("   NOAZI    0.00   -0.80   -0.90   -0.90   -0.40    0.20    0.80    1.30    1.40".into()),
            "endfreq" => l.push(labelled(&format!("   {}", FREQ[k - 1]), "END OF FREQUENCY")),
            _ => l.push(labelled("", "END OF ANTENNA")),
        }
    }
    let t = l.join(["\n", "\r\n"][arr(v, "doc").len() % 2]);
    let cat = arr(v, "cat");
    let same = |what: &str, c: &AntexCatalog| -> Outcome {
        ensure!(c.len() == cat.iter().filter(|w| w.as_array().is_some_and(|a| !a.is_empty())).count(), "antennas", "{what}: {:?}, expected {cat:?}\n{t}", c.keys());
        for (a, w) in cat.iter().enumerate() {
            let Some(w) = w.as_array().and_then(|w| w.first()) else { continue };
            let w = ints(w);
            let Some(p) = c.get(ANT[a]) else { bail!("antennas", "{what}: {:?} missing\n{t}", ANT[a]) };
            ensure!(p.len() == w.iter().filter(|o| **o != 0).count(), "frequencies", "{what}: {p:?}, expected {w:?}\n{t}");
            for (f, o) in w.iter().enumerate() {
                if *o == 0 { continue; }
                let ok = p.get(FREQ[f]).is_some_and(|p| { let g = [p.x().value(), p.y().value(), p.z().value()]; (0..3).all(|q| (g[q] - PCO[*o as usize - 1][q]).abs() < 1e-9) });
                ensure!(ok, "offset", "{what}: {p:?}, expected {w:?}\n{t}");
            }
        }
        Ok(())
    };
    let c = match read_antex(t.as_bytes()) { Ok(c) => c, Err(e) => bail!("refused", "{e}\n{t}") };
    same("read", &c)?;
    let mut o = Vec::new();
    ensure!(write_antex(&mut o, &c).is_ok(), "write", "writing failed");
    match read_antex(&o[..]) { Ok(c) => same("written", &c)?, Err(e) => bail!("rewrite", "{e}") }
    cov("read");
    Ok(())
}

// ---- Earth orientation ----
pub fn replay_eop(v: &Value) -> Outcome {
    let (days, want) = (arr(v, "days"), arr(v, "want"));
    const MJD0: f64 = 57_750.0;
    let row = |d: &Value| { let (n, u, w) = (i(d, "d"), i(d, "u") as f64 / 1e4, i(d, "w")); [MJD0 + n as f64, 0.1 + n as f64 * 0.002, 0.3 - n as f64 * 0.001, u, w as f64 * 1e-4, n as f64 * 1e-5, -1e-4] };
    let mut l = Vec::new();
    for x in arr(v, "doc") {
        l.push(match (x[0].as_str().unwrap(), &x[1]) {
            ("rec", k) => { let r = row(&days[k.as_i64().unwrap() as usize - 1]); let d = ymd(1858, 11, 17) + chrono::TimeDelta::days(r[0] as i64); format!("{}  {:6} {:.6} {:.6} {:.7} {:.7} {:.6} {:.6} 0.0001 0.0001", d.format("%Y %-m %-d"), r[0], r[1], r[2], r[3], r[4], r[5], r[6]) }
            (_, o) => match o.as_str().unwrap() {
                "#" => "# 2017 1 1 57755 9 9 9 9 9 9", "blank" => "  ", "few" => "2017 1 1 57755 9 9 9 9 9", "wordx" => "2017 1 1 57755 ? 9 9 9 9 9 9", "wordut1" => "2017 1 1 57755 9 9 - 9 9 9 9",
                "worddy" => "2017 1 1 57755 9 9 9 9 9 n/a 9", "wordmjd" => "2017 1 1 x 9 9 9 9 9 9", _ => "  Date MJD x y UT1-UTC LOD dX dY xErr yErr UT1Err",
            }.into(),
        });
    }
    let t = l.join("\n");
    let r = match read_eop_c04(t.as_bytes()) { Ok(r) => r, Err(e) => bail!("refused", "{e}\n{t}") };
    ensure!(r.len() == days.len(), "records", "{} records, expected {}\n{t}", r.len(), days.len());
    let near = |a: f64, b: f64| (a - b).abs() < 1e-9;
    for (g, d) in r.iter().zip(days) {
        let w = row(d);
        ensure!(near(g.mjd.raw().value(), w[0]) && near(g.eop.xp.value(), w[1]) && near(g.eop.yp.value(), w[2]) && near(g.eop.dut1.value(), w[3]) && near(g.eop.lod.value(), w[4]) && near(g.eop.dx.value(), w[5] * 1e3) && near(g.eop.dy.value(), w[6] * 1e3), "record", "{g:?}, expected {w:?}");
    }
    let at = |q: usize| read_eop_c04(format!("2000 1 1 {} 0 0 0 0 0 0", MJD0 + q as f64 / 4.0).as_bytes()).expect("an instant")[0].mjd;
    if days.is_empty() { ensure!(interpolate(&r, at(4)).is_none(), "empty", "an empty table has values"); return Ok(()); }
    let (first, last) = (i(&days[0], "d") as f64, i(&days[days.len() - 1], "d") as f64);
    for (k, w) in want.iter().enumerate() {
        // quarters from the first on
        let q = k + 1;
        let g = match interpolate(&r, at(q)) { Some(g) => g, None => bail!("interpolate", "no value") };
        let d = (q as f64 / 4.0).clamp(first, last);
        ensure!(near(g.eop.dut1.value(), w.as_f64().unwrap() / 4e4), "dut1", "UT1-UTC {} at quarter {q}, expected {}\n{t}", g.eop.dut1.value(), w.as_f64().unwrap() / 4e4);
        ensure!(near(g.eop.xp.value(), 0.1 + d * 0.002) && near(g.eop.yp.value(), 0.3 - d * 0.001) && near(g.eop.dx.value(), d * 1e-2) && near(g.eop.dy.value(), -0.1), "pole", "{g:?} at quarter {q}");
    }
    cov("table");
    Ok(())
}
