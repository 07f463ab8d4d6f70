//! Two-line elements and orbit mean-elements messages.
use crate::common::*;
use crate::laser::{ns_of, off, BACK};
use crate::{bail, ensure};
use chrono::{Datelike, NaiveDate};
use serde_json::{json, Value};
use siderust::formats::tle::omm::{json as oj, kvn, xml, Omm};
use siderust::formats::tle::{compute_tle_checksum, format_tle, parse_3le, parse_tle, validate_tle_checksum, Classification, InternationalDesignator, SatelliteNumber, TleBuilder, TLE};
use siderust::qtty::angular::{Degrees, Turn};
use siderust::qtty::angular_rate::AngularRate;
use siderust::qtty::time::Day;
use siderust::time::{Time, UTC};

const NAN: i64 = 2_000_000_000;
fn scaled(n: i64, by: f64) -> f64 { if n == NAN { f64::NAN } else { n as f64 / by } }
fn signed(v: &Value, by: f64) -> f64 { let m = scaled(v[1].as_i64().unwrap(), by); if v[0] == "-" { -m } else { m } }
/// sign, mantissa digits, exponent
fn exp(v: &Value, digits: i64) -> f64 {
    let (m, e) = (v[1].as_i64().unwrap(), v[2].as_i64().unwrap());
    let x: f64 = if m == NAN { f64::NAN } else { format!("{m}e{}", e - digits).parse().unwrap() };
    if v[0] == "-" { -x } else { x }
}
/// nanoseconds since 1970 of a day of a year and a fraction of `per` units a day
fn instant(v: &Value, per: i128) -> i128 {
    let e = ints(v);
    let d = NaiveDate::from_ymd_opt(e[0] as i32, 1, 1).unwrap() + chrono::Duration::days(e[1] - 1);
    ns_of(d, 0.0) + e[2] as i128 * (86_400_000_000_000 / per)
}
fn utc(ns: i128) -> Time<UTC> { Time::<UTC>::try_from_chrono(chrono::DateTime::from_timestamp((ns.div_euclid(1_000_000_000)) as i64, ns.rem_euclid(1_000_000_000) as u32).unwrap()).unwrap() }
fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-13 * b.abs().max(1e-30) || a == b }

fn same(what: &str, t: &TLE, c: &Value, slack: i128) -> Outcome {
    ensure!(t.norad_id.0 as i64 == i(c, "norad"), "norad", "{what}: catalogue number {} for {}", t.norad_id.0, c["norad"]);
    ensure!(t.classification.as_char().to_string() == st(c, "class"), "class", "{what}: {:?} for {}", t.classification, c["class"]);
    ensure!(t.international_designator.0 == st(c, "desig"), "designator", "{what}: {:?} for {}", t.international_designator, c["desig"]);
    let ns = instant(&c["epoch"], 100_000_000);
    ensure!(off(t.epoch, ns).abs() <= slack, "epoch", "{what}: epoch {:?} is {} ns off {}", t.epoch.try_to_chrono(), off(t.epoch, ns), c["epoch"]);
    for (k, got, want) in [
        ("ndot", t.mean_motion_dot, signed(&c["ndot"], 1e8)),
        ("nddot", t.mean_motion_ddot, exp(&c["nddot"], 5)),
        ("bstar", t.bstar, exp(&c["bstar"], 5)),
        ("elset", t.element_set_number as f64, i(c, "elset") as f64),
        ("rev", t.revolution_number_at_epoch as f64, i(c, "rev") as f64),
        ("inc", t.inclination.value(), scaled(i(c, "inc"), 1e4)),
        ("raan", t.raan.value(), scaled(i(c, "raan"), 1e4)),
        ("argp", t.argument_of_perigee.value(), scaled(i(c, "argp"), 1e4)),
        ("anom", t.mean_anomaly.value(), scaled(i(c, "anom"), 1e4)),
        ("ecc", t.eccentricity, scaled(i(c, "ecc"), 1e7)),
        ("mean", t.mean_motion.value(), c["mean"][0].as_f64().unwrap() + c["mean"][1].as_f64().unwrap() / 1e8),
    ] {
        ensure!(close(got, want), "element", "{what}: {k} is {got}, expected {want}");
    }
    Ok(())
}

fn build(r: &Value) -> TLE {
    let d = st(r, "desig").replace('~', "Ä");
    let mean = ints(&r["mean"]);
    TleBuilder::new()
        .norad_id(SatelliteNumber(i(r, "norad") as u32))
        .classification(Classification::from_char(st(r, "class").chars().next().unwrap()).unwrap())
        .international_designator(InternationalDesignator(d))
        .epoch(utc(instant(&r["epoch"], 1_000_000_000)))
        .mean_motion_dot(signed(&r["ndot"], 1e9))
        .mean_motion_ddot(exp(&r["nddot"], 7))
        .bstar(exp(&r["bstar"], 7))
        .element_set_number(i(r, "elset") as u16)
        .revolution_number_at_epoch(i(r, "rev") as u32)
        .inclination(Degrees::new(scaled(i(r, "inc"), 1e5)))
        .raan(Degrees::new(scaled(i(r, "raan"), 1e5)))
        .eccentricity(scaled(i(r, "ecc"), 1e8))
        .argument_of_perigee(Degrees::new(scaled(i(r, "argp"), 1e5)))
        .mean_anomaly(Degrees::new(scaled(i(r, "anom"), 1e5)))
        .mean_motion(AngularRate::<Turn, Day>::new(if mean[0] == NAN { f64::NAN } else { format!("{}.{:09}", mean[0], mean[1]).parse().unwrap() }))
        .build()
        .unwrap()
}

/// Through each encoding of the mean-elements message and back to the same two lines.
fn across(t: &TLE, id: &str, l1: &str, l2: &str) -> Outcome {
    let o = Omm::from_tle(t);
    ensure!(o.object_id == id, "object-id", "designator {:?} became {:?}, expected {id:?}", t.international_designator, o.object_id);
    let name = t.name.clone().unwrap_or(format!("NORAD {}", t.norad_id.0));
    ensure!(o.object_name == name, "object-name", "{:?} for {name:?}", o.object_name);
    for (what, back) in [
        ("KVN", kvn::write(&o).and_then(|s| kvn::read(&s))),
        ("XML", xml::write(&o).and_then(|s| xml::read(&s))),
        ("JSON", oj::write(&o).and_then(|s| oj::read(&s))),
    ] {
        let p = match back { Ok(p) => p.to_tle(), Err(e) => bail!("omm", "{what} message of {l1} / {l2}: {e}") };
        ensure!(p.name.as_deref() == Some(&name), "omm-name", "{what}: name {:?} for {name:?}", p.name);
        match format_tle(&p) {
            Ok((a, b)) => ensure!(a == l1 && b == l2, "omm-back", "{what}: {l1} / {l2} came back as {a} / {b}"),
            Err(e) => bail!("omm-back", "{what}: {l1} / {l2} came back and could not be formatted: {e}"),
        }
    }
    Ok(())
}

pub fn replay_tle(v: &Value) -> Outcome {
    let ok = b(v, "ok");
    if st(v, "mode") == "write" {
        let t = build(&v["raw"]);
        let r = match guard(|| format_tle(&t)) { Ok(r) => r, Err(p) => bail!("panic", "formatting {}: {p}", v["raw"]) };
        let (l1, l2) = match (r, ok) {
            (Ok(l), true) => l,
            (Err(_), false) => { cov("refused"); return Ok(()); }
            (Ok((a, b)), false) => bail!("overflow", "{} does not fit two lines, got {a:?} / {b:?}", v["raw"]),
            (Err(e), true) => bail!("refused", "{} was refused: {e}", v["raw"]),
        };
        ensure!(l1 == st(v, "l1") && l2 == st(v, "l2"), "lines", "{l1} / {l2}, expected {} / {}", v["l1"], v["l2"]);
        match parse_tle(&l1, &l2) { Ok(t) => same("formatted", &t, &v["card"][0], 20)?, Err(e) => bail!("unreadable", "{l1} / {l2}: {e}") }
        across(&t, st(v, "id"), &l1, &l2)?;
        cov("formatted");
        return Ok(());
    }
    let (l1, l2) = (st(v, "l1").replace("~~", "é"), st(v, "l2").replace("~~", "é"));
    let r = match guard(|| parse_tle(&l1, &l2)) { Ok(r) => r, Err(p) => bail!("panic", "reading {l1:?} / {l2:?}: {p}") };
    // the checksum validators never disagree with the reader
    for l in [&l1, &l2] {
        let c = match guard(|| validate_tle_checksum(l)) { Ok(c) => c, Err(p) => bail!("panic", "checksum of {l:?}: {p}") };
        let good = l.is_ascii() && l.len() == 69 && l.as_bytes()[68] == b'0' + compute_tle_checksum(&l[..68]);
        ensure!(c.is_ok() == good, "checksum", "{l:?} validates as {c:?}");
    }
    let t = match (r, ok) {
        (Ok(t), true) => t,
        (Err(_), false) => { cov("refused"); return Ok(()); }
        (Ok(t), false) => bail!("accepted", "{l1:?} / {l2:?} was read as {t:?}"),
        (Err(e), true) => bail!("refused", "{l1:?} / {l2:?} was refused: {e}"),
    };
    same("read", &t, &v["card"][0], 20)?;
    ensure!(t.name.is_none(), "name", "a name out of nowhere: {:?}", t.name);
    let (given, want) = (v["name"][0].as_str().unwrap(), v["name"][1].as_str().unwrap());
    let named = if given == "-" { t } else {
        match parse_3le(given, &l1, &l2) { Ok(t) => { same("named", &t, &v["card"][0], 20)?; t } Err(e) => bail!("refused", "{given:?} {l1:?} / {l2:?}: {e}") }
    };
    ensure!(named.name.clone().unwrap_or_default() == want, "name", "{given:?} gave the name {:?}, expected {want:?}", named.name);
    // what has been read can be written again, and says the same
    match format_tle(&named) {
        Ok((a, b)) => {
            ensure!(a.len() == 69 && b.len() == 69, "columns", "{l1:?} / {l2:?} came back as {a:?} / {b:?}");
            match parse_tle(&a, &b) { Ok(t) => same("rewritten", &t, &v["card"][0], BACK)?, Err(e) => bail!("rewrite", "{a:?} / {b:?}: {e}") }
            across(&named, st(v, "id"), &a, &b)?;
        }
        Err(e) => bail!("rewrite", "{l1:?} / {l2:?} cannot be formatted again: {e}"),
    }
    cov("read");
    Ok(())
}

// ---- orbit mean-elements messages ------------------------------------------------------------------------------
fn compact(t: &str) -> i128 {
    let n = chrono::NaiveDateTime::parse_from_str(t, "%Y-%m-%dT%H:%M:%S%.f").unwrap();
    assert!(n.year() > 0);
    n.and_utc().timestamp_micros() as i128 * 1000
}
fn says(o: &Omm, w: &[Value], held: bool) -> Outcome {
    let t = |k: usize| w[k].as_str().unwrap();
    let f = |k: usize| -> f64 { t(k).parse().unwrap() };
    let n = |k: usize| t(k).replace('~', "\n");
    ensure!(o.object_name == n(0) && o.object_id == n(1), "name", "{:?} {:?} for {:?} {:?}", o.object_name, o.object_id, n(0), n(1));
    ensure!(off(o.epoch, compact(t(4))).abs() <= if held { BACK } else { 2 }, "epoch", "epoch {:?} is {} ns off {}", o.epoch.try_to_chrono(), off(o.epoch, compact(t(4))), t(4));
    ensure!(o.classification.as_char().to_string() == t(12), "class", "{:?} for {}", o.classification, t(12));
    for (k, got, rel, abs) in [
        (5, o.mean_motion.value(), 0.0, 5.1e-9),
        (6, o.eccentricity, 0.0, 5.1e-8),
        (7, o.inclination.value(), 0.0, 5.1e-5),
        (8, o.ra_of_asc_node.value(), 0.0, 5.1e-5),
        (9, o.arg_of_pericenter.value(), 0.0, 5.1e-5),
        (10, o.mean_anomaly.value(), 0.0, 5.1e-5),
        (11, o.ephemeris_type as f64, 0.0, 0.0),
        (13, o.norad_id.0 as f64, 0.0, 0.0),
        (14, o.element_set_no as f64, 0.0, 0.0),
        (15, o.rev_at_epoch as f64, 0.0, 0.0),
        (16, o.bstar, 5.1e-9, 0.0),
        (17, o.mean_motion_dot, 5.1e-9, 0.0),
        (18, o.mean_motion_ddot, 5.1e-9, 0.0),
    ] {
        let want = f(k);
        ensure!((got - want).abs() <= if held { abs + rel * want.abs() } else { 1e-15 * want.abs() }, "element", "field {k} is {got}, expected {want}");
    }
    Ok(())
}
fn numeric(k: usize) -> bool { (5..=11).contains(&k) || k >= 13 }
fn escape(s: &str) -> String { s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;") }
fn render(enc: &str, layout: i64, fields: &[Value]) -> String {
    let mut f: Vec<(usize, &str, &str)> = fields.iter().enumerate().map(|(k, p)| (k, p[0].as_str().unwrap(), p[1].as_str().unwrap())).filter(|x| x.2 != "(absent)").collect();
    if layout % 2 == 1 { f.reverse() }
    let noisy = layout >= 2;
    match enc {
        "kvn" => {
            let nl = if noisy { "\r\n" } else { "\n" };
            let mut s = format!("CCSDS_OMM_VERS = 2.0{nl}CREATION_DATE = 2024-01-01T00:00:00{nl}ORIGINATOR = X{nl}");
            for (n, (_, k, t)) in f.iter().enumerate() {
                if noisy && n % 3 == 0 { s += &format!("COMMENT {k} = 99{nl}{nl}") }
                s += &if noisy && n % 2 == 0 { format!("  {k}={t}  {nl}") } else { format!("{k:<20} = {t}{nl}") };
            }
            s
        }
        "xml" => {
            let mut s = "<?xml version=\"1.0\"?>\n<omm id=\"CCSDS_OMM_VERS\" version=\"2.0\"><body><segment>".to_string();
            for (_, k, t) in f { s += &if noisy { format!("<{k}>\n   {}\n</{k}>", escape(t)) } else { format!("<{k}>{}</{k}>\n", escape(t)) } }
            s + "</segment></body></omm>\n"
        }
        _ => {
            let parts: Vec<String> = f.iter().map(|(k, key, t)| {
                let bare = numeric(*k) && serde_json::from_str::<Value>(t).is_ok_and(|v| v.is_number());
                format!("{}: {}", json!(key), if bare { t.to_string() } else { json!(t).to_string() })
            }).collect();
            format!("{{{}{}}}", if noisy { "\"CCSDS_OMM_VERS\": \"2.0\", " } else { "" }, parts.join(if noisy { ",\n\t" } else { ", " }))
        }
    }
}
pub fn replay_omm(v: &Value) -> Outcome {
    let (enc, layout, ok, fields) = (st(v, "enc"), i(v, "layout"), b(v, "ok"), arr(v, "fields"));
    let held = st(v, "mode") == "hold";
    let text = if held {
        let t = |k: usize| fields[k][1].as_str().unwrap().replace('~', "\n");
        let f = |k: usize| -> f64 { t(k).parse().unwrap() };
        let o = Omm {
            object_name: t(0), object_id: t(1), epoch: utc(compact(&t(4))),
            mean_motion: AngularRate::<Turn, Day>::new(f(5)), eccentricity: f(6), inclination: Degrees::new(f(7)), ra_of_asc_node: Degrees::new(f(8)),
            arg_of_pericenter: Degrees::new(f(9)), mean_anomaly: Degrees::new(f(10)), ephemeris_type: f(11) as u8,
            classification: Classification::from_char(t(12).chars().next().unwrap()).unwrap(), norad_id: SatelliteNumber(f(13) as u32),
            element_set_no: f(14) as u16, rev_at_epoch: f(15) as u32, bstar: f(16), mean_motion_dot: f(17), mean_motion_ddot: f(18),
        };
        let r = match enc { "kvn" => kvn::write(&o), "xml" => xml::write(&o), _ => oj::write(&o) };
        match (r, ok) {
            (Ok(s), _) => s,
            (Err(_), false) => { cov("not written"); return Ok(()); }
            (Err(e), true) => bail!("refused", "{enc} of {}: {e}", v["fields"]),
        }
    } else { render(enc, layout, fields) };
    let r = guard(|| match enc { "kvn" => kvn::read(&text), "xml" => xml::read(&text), _ => oj::read(&text) });
    let r = match r { Ok(r) => r, Err(p) => bail!("panic", "reading {text}: {p}") };
    if enc == "json" {
        let two = format!("[{text}, {text}]");
        match oj::read_many(&two) {
            Ok(l) => { ensure!(ok && l.len() == 2, "many", "{} of two messages, expected {ok}: {two}", l.len()); for o in &l { says(o, arr(v, "want"), held)? } }
            Err(e) => ensure!(!ok, "many", "two messages refused: {e}: {two}"),
        }
    }
    match (r, ok) {
        (Ok(o), true) => says(&o, arr(v, "want"), held)?,
        (Err(_), false) => { cov("refused"); return Ok(()); }
        (Ok(o), false) => bail!("accepted", "{text} was read as {o:?}"),
        (Err(e), true) => bail!("refused", "{text} was refused: {e}"),
    }
    cov(if held { "round trips" } else { "read" });
    Ok(())
}
