//! Conformance harness: replays behaviours enumerated by TLC into siderust and records
//! traces of siderust for TLC to validate. One module per subsystem; see /verif/DESIGN.md.
mod common;
mod alt;
mod az;
mod ccsds;
mod dates;
mod adsb;
mod centers;
mod sky;
mod apparent;
mod forces;
mod orbits;
mod frames;
mod mission;
mod tle;
mod gnss;
mod laser;
mod pod;
mod spice;
use common::*;

fn handler(job: &str) -> Option<Handler> {
    Some(match job {
        "alt_periods" => alt::replay_periods,
        "alt_events" => alt::replay_events,
        "spk_pool" => spice::replay_pool,
        "spk_stack" => spice::replay_stack,
        "spice_text" => spice::replay_text,
        "spk_damage" => spice::replay_damage,
        "azimuth" => az::replay_az,
        "lsq_rows" => pod::replay_rows,
        "lsq_iterate" => pod::replay_iterate,
        "ekf" => pod::replay_ekf,
        "thrust" => pod::replay_thrust,
        "noise" => pod::replay_noise,
        "oem" => ccsds::replay_oem,
        "opm" => ccsds::replay_opm,
        "tdm" => ccsds::replay_tdm,
        "sp3" => laser::replay_sp3,
        "cpf" => laser::replay_cpf,
        "crd" => laser::replay_crd,
        "orbex" => laser::replay_orbex,
        "nav" => gnss::replay_nav,
        "obs" => gnss::replay_obs,
        "doris" => gnss::replay_doris,
        "sinex" => gnss::replay_sinex,
        "antex" => gnss::replay_antex,
        "eop" => gnss::replay_eop,
        "cpr" => adsb::replay_cpr,
        "adsb" => adsb::replay_adsb,
        "mission" => mission::replay,
        "forces" => forces::replay,
        "orbits" => orbits::replay,
        "frames" => frames::replay,
        "centers" => centers::replay,
        "sky" => sky::replay,
        "apparent" => apparent::replay,
        "tle_write" | "tle_read" => tle::replay_tle,
        "omm_read" | "omm_hold" => tle::replay_omm,
        "dates_ccsds" => dates::replay_ccsds,
        "dates_laser" => dates::replay_laser,
        "dates_rinex" => dates::replay_rinex,
        "dates_sinex" => dates::replay_sinex,
        _ => return None,
    })
}
fn recorder(job: &str) -> Option<fn(&mut Rec, &str, u64)> {
    Some(match job {
        "alt_real" => alt::record_real,
        "az_real" => az::record_az,
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let h = handler(&a[2]).unwrap_or_else(|| { eprintln!("unknown job"); std::process::exit(2) });
            replay(h, &a[3], &a[4], a.get(5).and_then(|s| s.parse().ok()));
        }
        Some("record") => {
            let r = recorder(&a[2]).unwrap_or_else(|| { eprintln!("unknown job"); std::process::exit(2) });
            quiet_panics();
            let mut rec = Rec::new(&a[3]);
            let (tier, seed) = (a[4].clone(), a[5].parse().unwrap_or(1));
            r(&mut rec, &tier, seed);
            println!("{}", serde_json::json!({"lines": rec.n, "coverage": take_cov()}));
        }
        _ => { eprintln!("usage: vharness replay|record JOB ..."); std::process::exit(2) }
    }
}
