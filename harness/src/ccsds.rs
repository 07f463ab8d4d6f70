//! CCSDS messages: documents rendered from the specification, read back, and written again.
use crate::common::*;
use crate::{bail, ensure};
use serde_json::Value;
use siderust::formats::ccsds::oem::{read_oem, read_oem_xml, write_oem, write_oem_xml, OemFile, OemMetadata, OemState};
use siderust::formats::ccsds::opm::{read_opm, write_opm};
use siderust::formats::ccsds::tdm::{read_tdm, write_tdm, ObservationType, TdmMessage};

/// Julian date of a civil instant, straight from chrono.
pub fn jd(s: &str) -> f64 {
    let t = chrono::NaiveDateTime::parse_from_str(s, "%Y-%m-%dT%H:%M:%S%.f").unwrap().and_utc();
    2_440_587.5 + (t.timestamp() as f64 + t.timestamp_subsec_nanos() as f64 * 1e-9) / 86_400.0
}
const EPOCHS: [&str; 5] = ["2024-02-29T12:34:56.789", "1999-12-31T23:59:59.5", "2000-01-01T00:00:00", "2031-07-04T06:00:30.25", "2100-02-28T18:00:00.000001"];
fn meta(k: i64) -> [String; 5] {
    let m = match k {
        1 => ["2024-001A", "SAT ONE", "GCRF", "UTC", "EARTH"],
        2 => ["1998-067A=B", "A & B <\"x\"> 'y'", "ITRF", "TDB", "MARS BARYCENTER"],
        _ => ["0", "&amp; &lt;", "EME2000", "TT", "EARTH"],
    };
    m.map(String::from)
}
const KEYS: [&str; 5] = ["OBJECT_ID", "OBJECT_NAME", "REF_FRAME", "TIME_SYSTEM", "CENTER_NAME"];
fn row(n: i64, e: i64) -> (String, [f64; 6]) {
    let n = n as f64;
    (EPOCHS[e as usize - 1].to_string(), [7000.0 + n, -0.5 * n, 0.125 - n, 7.5, -n * 1e-3, n * 0.25])
}
fn bad(kind: &str) -> (String, Vec<String>) {
    let (e, v) = row(99, 1);
    let mut v: Vec<String> = v.iter().map(|x| format!("{x}")).collect();
    let mut e = e;
    match kind {
        "short" => { v.pop(); }
        "word" => v[0] = "x7000".into(),
        "nan" => v[2] = "NaN".into(),
        "month" => e = "2024-13-01T00:00:00".into(),
        "day" => e = "2023-02-29T00:00:00".into(),
        "hour" => e = "2024-02-01T24:10:00".into(),
        "minute" => e = "2024-02-01T10:60:00".into(),
        _ => e = "10:00:00".into(),
    }
    (e, v)
}
fn esc(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;") }

fn kvn(doc: &[Value], style: usize) -> String {
    let eq = [" = ", "=", "\t=   "][style % 3];
    let nl = ["\n", "\r\n"][style / 3 % 2];
    let sep = [" ", "   ", "\t"][style % 3];
    let mut o = vec![format!("CCSDS_OEM_VERS{eq}3.0"), format!("CREATION_DATE{eq}2026-01-01T00:00:00"), format!("ORIGINATOR{eq}ME = YOU"), String::new()];
    let mut n = 0;
    for p in doc {
        match st(p, "p") {
            k @ ("meta" | "partial") => {
                let m = meta(if k == "meta" { i(p, "k") } else { 1 });
                o.push("META_START".into());
                for f in [3usize, 0, 4, 1, 2] {
                    if !(k == "partial" && f as i64 + 1 == i(p, "k")) { o.push(format!("{}{eq}{}", KEYS[f], m[f])); }
                }
                o.push(format!("START_TIME{eq}{}", EPOCHS[0]));
                o.push("META_STOP".into());
            }
            k @ ("row" | "rowacc") => {
                n += 1;
                let (e, v) = row(n, i(p, "k"));
                let mut l = format!("{e}{sep}{}", v.map(|x| format!("{x}")).join(sep));
                if k == "rowacc" { l.push_str(&format!("{sep}0.001{sep}0.002{sep}0.003")); }
                o.push(l);
            }
            "bad" => { let (e, v) = bad(st(p, "k")); o.push(format!("{e}{sep}{}", v.join(sep))); }
            "cov" => { o.push("COVARIANCE_START".into()); o.push(format!("EPOCH{eq}{}", EPOCHS[0])); o.push("1.0".into()); o.push("0.1 2.0".into()); o.push("COVARIANCE_STOP".into()); }
            "man" => { o.push("MAN_START".into()); o.push(format!("MAN_DV_1{eq}0.5")); o.push("MAN_STOP".into()); }
            _ => { o.push("COMMENT nothing to see = here".into()); o.push(String::new()); }
        }
    }
    o.join(nl) + nl
}
fn xml(doc: &[Value], style: usize) -> String {
    let p_ = ["", "ndm:"][style % 2];
    let mut o = format!("<?xml version=\"1.0\"?>\n<{p_}oem id=\"CCSDS_OEM_VERS\" version=\"3.0\">\n<header><CREATION_DATE>2026-01-01T00:00:00</CREATION_DATE><ORIGINATOR>ME = YOU</ORIGINATOR></header>\n<body>\n");
    let mut n = 0;
    let mut open = false;
    let vec = |e: &str, v: &[String], acc: bool| {
        let mut s = format!("<stateVector>\n  <EPOCH>{e}</EPOCH>");
        for (k, x) in ["X", "Y", "Z", "X_DOT", "Y_DOT", "Z_DOT"].iter().zip(v) { s.push_str(&format!("<{k} units=\"u\"> {x} </{k}>\n")); }
        if acc { s.push_str("<X_DDOT>0.1</X_DDOT><Y_DDOT>0.1</Y_DDOT>"); }
        s + "</stateVector>\n"
    };
    for p in doc {
        match st(p, "p") {
            k @ ("meta" | "partial") => {
                if open { o.push_str("</data></segment>\n"); }
                let m = meta(if k == "meta" { i(p, "k") } else { 1 });
                o.push_str(&format!("<{p_}segment><metadata>"));
                for f in [3usize, 0, 4, 1, 2] {
                    if !(k == "partial" && f as i64 + 1 == i(p, "k")) { o.push_str(&format!("<{0}>{1}</{0}>\n", KEYS[f], esc(&m[f]))); }
                }
                o.push_str(&format!("</metadata><data>\n"));
                open = true;
            }
            k @ ("row" | "rowacc") => { n += 1; let (e, v) = row(n, i(p, "k")); o.push_str(&vec(&e, &v.map(|x| format!("{x}")), k == "rowacc")); }
            "bad" => { let (e, v) = bad(st(p, "k")); o.push_str(&vec(&e, &v, false)); }
            "cov" => o.push_str("<covarianceMatrix><EPOCH>2000-01-01T00:00:00</EPOCH><CX_X>1.0</CX_X></covarianceMatrix>\n"),
            "man" => o.push_str("<!-- <stateVector> of old -->\n"),
            _ => if open { o.push_str("<COMMENT>nothing &amp; more</COMMENT>\n") },
        }
    }
    if open { o.push_str(&format!("</data></{p_}segment>\n")); }
    if style % 2 == 1 { o = o.replace("</segment>", "</ndm:segment>"); }
    o + &format!("</body></{p_}oem>\n")
}
fn metadata(k: i64) -> OemMetadata {
    let [object_id, object_name, ref_frame, time_system, center_name] = meta(k);
    OemMetadata { object_id, object_name, ref_frame, time_system, center_name }
}
fn same(what: &str, got: &OemFile, segs: &[Value], tol: f64) -> Outcome {
    ensure!(got.segments.len() == segs.len(), "segments", "{what}: {} segments, expected {}", got.segments.len(), segs.len());
    for (k, s) in segs.iter().enumerate() {
        let g = &got.segments[k];
        let m = metadata(i(s, "k"));
        ensure!(g.metadata.object_id == m.object_id && g.metadata.object_name == m.object_name && g.metadata.ref_frame == m.ref_frame && g.metadata.time_system == m.time_system && g.metadata.center_name == m.center_name,
            "metadata", "{what}: segment {k} {:?}, expected {m:?}", g.metadata);
        let rows = arr(s, "rows");
        ensure!(g.states.len() == rows.len(), "rows", "{what}: segment {k} has {} rows, expected {}", g.states.len(), rows.len());
        for (r, w) in g.states.iter().zip(rows) {
            let w = ints(w);
            let (e, v) = row(w[0], w[1]);
            ensure!((r.epoch_jd - jd(&e)).abs() <= 1.1e-9, "epoch", "{what}: epoch {} for {e}, expected {}", r.epoch_jd, jd(&e));
            for q in 0..3 {
                ensure!((r.position_km[q] - v[q]).abs() <= tol && (r.velocity_km_s[q] - v[q + 3]).abs() <= tol, "state", "{what}: state {r:?}, expected {v:?}");
            }
        }
    }
    Ok(())
}
/// Every civil instant printed must be one: no 60th second, no 24th hour.
pub fn civil(s: &str) -> Option<f64> {
    let sec: f64 = s.rsplit(':').next()?.parse().ok()?;
    if sec >= 60.0 { return None; }
    chrono::NaiveDateTime::parse_from_str(s, "%Y-%m-%dT%H:%M:%S%.f").ok()?;
    Some(jd(s))
}
pub fn replay_oem(v: &Value) -> Outcome {
    let (doc, segs, ok) = (arr(v, "doc"), arr(v, "segs"), b(v, "ok"));
    let style = doc.iter().enumerate().map(|(k, p)| (k + 1) * st(p, "p").len()).sum::<usize>();
    for (what, text, got) in [
        { let t = kvn(doc, style); let r = read_oem(t.as_bytes()); ("KVN", t, r) },
        { let t = xml(doc, style); let r = read_oem_xml(t.as_bytes()); ("XML", t, r) },
    ] {
        match got {
            Ok(f) => {
                if !ok {
                    bail!("accepted", "{what}: accepted a message that says nothing or is malformed:\n{text}");
                }
                same(what, &f, segs, 1e-12)?;
                ensure!(f.version == "3.0" && f.creation_date == "2026-01-01T00:00:00" && f.originator == "ME = YOU", "header", "{what}: {:?} {:?} {:?}", f.version, f.creation_date, f.originator);
                cov("read");
            }
            Err(e) => ensure!(!ok, "refused", "{what}: {e}\n{text}"),
        }
    }
    if !ok { return Ok(()); }
    for s in segs {
        let m = metadata(i(s, "k"));
        let states: Vec<OemState> = arr(s, "rows").iter().map(|w| { let w = ints(w); let (e, v) = row(w[0], w[1]); OemState::new(jd(&e), [v[0], v[1], v[2]], [v[3], v[4], v[5]]) }).collect();
        let (mut k, mut x) = (Vec::new(), Vec::new());
        let (rk, rx) = (write_oem(&mut k, &m, &states), write_oem_xml(&mut x, &m, &states));
        if states.is_empty() {
            ensure!(rk.is_err() && rx.is_err() && k.is_empty() && x.is_empty(), "write", "an empty segment was written");
            continue;
        }
        ensure!(rk.is_ok() && rx.is_ok(), "write", "writing failed");
        let one = std::slice::from_ref(s);
        let (tk, tx) = (String::from_utf8_lossy(&k).to_string(), String::from_utf8_lossy(&x).to_string());
        match read_oem(&k[..]) { Ok(f) => same("written KVN", &f, one, 1e-6)?, Err(e) => bail!("rewrite", "written KVN refused: {e}\n{tk}") }
        match read_oem_xml(&x[..]) { Ok(f) => same("written XML", &f, one, 1e-6)?, Err(e) => bail!("rewrite", "written XML refused: {e}\n{tx}") }
        let bounds = [("START_TIME", states[0].epoch_jd), ("STOP_TIME", states[states.len() - 1].epoch_jd)];
        for (key, w) in bounds {
            let l = tk.lines().find(|l| l.starts_with(key)).and_then(|l| l.split('=').nth(1)).unwrap_or("").trim();
            ensure!(civil(l).is_some_and(|g| (g - w).abs() < 1.1e-9), "bounds", "{key} {l}, expected {w}");
            let l = tx.split(&format!("<{key}>")).nth(1).and_then(|l| l.split('<').next()).unwrap_or("").trim();
            ensure!(civil(l).is_some_and(|g| (g - w).abs() < 1.1e-9), "bounds", "XML {key} {l}, expected {w}");
        }
        cov("written");
    }
    Ok(())
}

// --- OPM ---------------------------------------------------------------------------------
pub fn replay_opm(v: &Value) -> Outcome {
    let val: Vec<(&str, String)> = vec![
        ("OBJECT_NAME", "SAT = ONE".into()), ("OBJECT_ID", "2024-001A".into()), ("CENTER_NAME", "MARS".into()), ("REF_FRAME", "GCRF".into()), ("TIME_SYSTEM", "TDB".into()),
        ("EPOCH", "2024-02-29T12:34:56.789".into()), ("X", "6655.9942".into()), ("Y", "-40218.5751".into()), ("Z", "-82.9177".into()),
        ("X_DOT", "3.115482".into()), ("Y_DOT", "0.470427".into()), ("Z_DOT", "-1.4e-3".into()),
        ("SEMI_MAJOR_AXIS", "41399.5123".into()), ("ECCENTRICITY", "0.0208426".into()), ("INCLINATION", "0.1171".into()), ("RA_OF_ASC_NODE", "17.6047".into()), ("ARG_OF_PERICENTER", "218.2429".into()), ("TRUE_ANOMALY", "41.9223".into())];
    let flaw: std::collections::BTreeMap<&str, &str> = arr(v, "flaws").iter().map(|f| (f[0].as_str().unwrap(), f[1].as_str().unwrap())).collect();
    let order = i(v, "order") as usize;
    let mut lines: Vec<String> = val.iter().filter(|(k, _)| flaw.get(k) != Some(&"missing")).map(|(k, x)| {
        let x = match flaw.get(k) { Some(&"word") => "12x", Some(&"empty") => "", _ => x };
        if order % 2 == 0 { format!("{k:<20} = {x}") } else { format!("  {k}={x}  ") }
    }).collect();
    if order >= 2 { lines.reverse(); }
    let text = format!("CCSDS_OPM_VERS = 2.0\nCOMMENT X = 1\nMETA_START\n{}\nMETA_STOP\n\nCOMMENT end\n", lines.join(if order == 3 { "\r\n" } else { "\n" }));
    let ok = b(v, "ok");
    let m = match read_opm(text.as_bytes()) { Ok(m) => m, Err(e) => { ensure!(!ok, "refused", "{e}\n{text}"); return Ok(()); } };
    ensure!(ok, "accepted", "accepted:\n{text}");
    let get = |k: &str, d: &str| if flaw.get(k) == Some(&"missing") { d.to_string() } else { val.iter().find(|x| x.0 == k).unwrap().1.clone() };
    let num = |k: &str| get(k, "").parse::<f64>().unwrap();
    let check = |m: &siderust::formats::ccsds::opm::OpmMessage, what: &str, tol: f64| -> Outcome {
        ensure!(m.metadata.object_name == get("OBJECT_NAME", "") && m.metadata.object_id == get("OBJECT_ID", "") && m.metadata.center_name == get("CENTER_NAME", "EARTH") && m.metadata.ref_frame == get("REF_FRAME", "EME2000") && m.metadata.time_system == get("TIME_SYSTEM", "UTC"), "metadata", "{what}: {:?}", m.metadata);
        ensure!(m.state.epoch == get("EPOCH", ""), "epoch", "{what}: {}", m.state.epoch);
        for (g, k) in m.state.position_km.iter().zip(["X", "Y", "Z"]).chain(m.state.velocity_km_s.iter().zip(["X_DOT", "Y_DOT", "Z_DOT"])) {
            ensure!((g - num(k)).abs() <= tol, "state", "{what}: {k} {g}, expected {}", num(k));
        }
        ensure!(m.keplerian.is_some() == b(v, "kepler"), "elements", "{what}: elements {:?}", m.keplerian);
        if let Some(e) = &m.keplerian {
            for (g, k) in [(e.semi_major_axis_km, "SEMI_MAJOR_AXIS"), (e.eccentricity, "ECCENTRICITY"), (e.inclination_deg, "INCLINATION"), (e.ra_of_asc_node_deg, "RA_OF_ASC_NODE"), (e.arg_of_pericenter_deg, "ARG_OF_PERICENTER"), (e.true_anomaly_deg, "TRUE_ANOMALY")] {
                ensure!((g - num(k)).abs() <= tol.max(1e-12) * 100.0, "elements", "{what}: {k} {g}, expected {}", num(k));
            }
        }
        Ok(())
    };
    check(&m, "read", 0.0)?;
    cov("read");
    let mut o = Vec::new();
    ensure!(write_opm(&mut o, &m).is_ok(), "write", "writing failed");
    match read_opm(&o[..]) { Ok(m) => check(&m, "written", 1e-6)?, Err(e) => bail!("rewrite", "written message refused: {e}\n{}", String::from_utf8_lossy(&o)) }
    cov("written");
    Ok(())
}

// --- TDM ---------------------------------------------------------------------------------
pub fn replay_tdm(v: &Value) -> Outcome {
    let doc = arr(v, "doc");
    let mut t = vec!["CCSDS_TDM_VERS = 1.0".to_string(), "CREATION_DATE = 2026".into()];
    let (mut np, mut no) = (0, 0);
    let eq = if doc.len() % 2 == 0 { " = " } else { "=" };
    let when = |n: i64| format!("2024-{:03}T12:00:{:02}", 1 + n, n);
    let value = |n: i64| 23000.0 + n as f64 * 0.1;
    let part = |n: i64| format!("DSS-{n}:A = B");
    for l in doc {
        match l.as_str().unwrap() {
            "meta[" => { t.push("META_START".into()); np = 0; }
            "]meta" => t.push("META_STOP".into()),
            "data[" => t.push("DATA_START".into()),
            "]data" => t.push("DATA_STOP".into()),
            "part" => { np += 1; t.push(format!("PARTICIPANT_{np}{eq}{}", part(np))); }
            "mode" => t.push(format!("MODE{eq}SEQUENTIAL")),
            "path" => t.push(format!("PATH{eq}1,2,1")),
            "time" => t.push(format!("TIME_SYSTEM{eq}UTC")),
            "nocolon" => t.push(format!("RANGE{eq}2024-001T00:00:00")),
            "novalue" => t.push(format!("RANGE{eq}2024-001T00:00:00 : ")),
            "word" => t.push(format!("RANGE{eq}2024-001T00:00:00 : 12x")),
            "note" => { t.push("COMMENT RANGE = 1 : 2".into()); t.push(String::new()); }
            k => { no += 1; t.push(format!("{k}{eq}{} : {}", when(no), value(no))); }
        }
    }
    let text = t.join("\n");
    let (metas, obs) = (arr(v, "metas"), arr(v, "obs"));
    let m = match read_tdm(text.as_bytes()) { Ok(m) => m, Err(e) => { ensure!(!b(v, "ok"), "refused", "{e}\n{text}"); return Ok(()); } };
    ensure!(b(v, "ok"), "accepted", "accepted:\n{text}");
    let check = |m: &TdmMessage, what: &str| -> Outcome {
        ensure!(m.metadata.len() == metas.len() && m.observations.len() == obs.len(), "counts", "{what}: {} metadata blocks and {} observations, expected {} and {}\n{text}", m.metadata.len(), m.observations.len(), metas.len(), obs.len());
        for (g, w) in m.metadata.iter().zip(metas) {
            let parts: Vec<String> = (1..=i(w, "parts")).map(part).collect();
            ensure!(g.participants == parts && g.mode == (if b(w, "mode") { "SEQUENTIAL" } else { "" }) && g.path == (if b(w, "path") { "1,2,1" } else { "" }) && g.time_system == (if b(w, "ts") { "UTC" } else { "" }), "metadata", "{what}: {g:?}, expected {w}");
        }
        for (k, (g, w)) in m.observations.iter().zip(obs).enumerate() {
            let n = k as i64 + 1;
            let ty = match w.as_str().unwrap() { "RANGE" => ObservationType::Range, "DOPPLER_INSTANTANEOUS" => ObservationType::Doppler, "ANGLE_1" => ObservationType::Angle1, "ANGLE_2" => ObservationType::Angle2, o => ObservationType::Other(o.into()) };
            ensure!(g.obs_type == ty && g.epoch == when(n) && g.value == value(n), "observation", "{what}: {g:?}, expected {w} at {} of {}", when(n), value(n));
        }
        Ok(())
    };
    check(&m, "read")?;
    cov("read");
    let mut o = Vec::new();
    ensure!(write_tdm(&mut o, &m).is_ok(), "write", "writing failed");
    match read_tdm(&o[..]) { Ok(m) => check(&m, "written")?, Err(e) => bail!("rewrite", "written message refused: {e}") }
    Ok(())
}
