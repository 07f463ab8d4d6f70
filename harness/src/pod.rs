//! Orbit determination: least squares, sequential filter, thrust log, process noise.
use crate::common::*;
use crate::{bail, ensure};
use serde_json::Value;
use siderust::astro::dynamics::{OrbitState, Position, StateCovariance, Velocity};
use siderust::coordinates::frames::GCRS;
use siderust::pod::estimation::{gauss_newton, EkfError, NonlinearError, NonlinearOptions, NormalEquations, OrbitEkf, WlsSolverError};
use siderust::pod::force::{mass_flow_rate, thrust_acceleration, LowThrustLog, ThrustArc, G0_M_PER_S2};
use siderust::pod::process::{GaussMarkovParams, PiecewiseSegment, ProcessNoise, ProcessNoiseModel, WhiteAccelPsd};
use siderust::qtty::*;

fn num(x: i64) -> f64 { match x { 99 => f64::NAN, 98 => f64::INFINITY, v => v as f64 } }
fn close(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs())) }

// --- least squares -----------------------------------------------------------------
pub fn replay_rows(v: &Value) -> Outcome {
    let mut ne = NormalEquations::new(3);
    let oks = arr(v, "ok");
    for (k, r) in arr(v, "rows").iter().enumerate() {
        let p: Vec<(usize, f64)> = arr(r, "p").iter().map(|x| { let y = ints(x); (y[0] as usize, num(y[1])) }).collect();
        let sigma = match i(r, "w") { 1 => 1.0, 4 => 0.5, 0 => 0.0, -1 => -1.0, -2 => f64::INFINITY, _ => f64::NAN };
        let want = oks[k].as_bool().unwrap();
        let before = (ne.chi2, ne.n_obs);
        match ne.add_row(&p, num(i(r, "r")), sigma) {
            Ok(()) => { ensure!(want, "accept", "row {k} {r} was accepted"); cov("rows_accepted"); }
            Err(e) => {
                ensure!(!want, "accept", "row {k} {r} was refused: {e}");
                ensure!((ne.chi2, ne.n_obs) == before, "refused", "the refused row {k} {r} changed chi2 or the observation count");
                cov("rows_refused");
            }
        }
    }
    ensure!(ne.n_obs as i64 == i(v, "nobs") && close(ne.chi2, i(v, "chi2") as f64, 1e-12), "totals", "{} observations with chi2 {}, expected {} and {}", ne.n_obs, ne.chi2, i(v, "nobs"), i(v, "chi2"));
    let (det, unseen) = (i(v, "det") as f64, b(v, "unseen"));
    match ne.solve() {
        Err(e) => ensure!(det == 0.0, "solve", "solvable equations refused: {e}"),
        Ok(r) => {
            if unseen { bail!("solve", "a parameter no observation touches was solved for: {:?}", r.update); }
            if det == 0.0 { cov("nearly_singular"); return Ok(()); }
            let x = ints(&v["x"]);
            let c: Vec<Vec<i64>> = arr(v, "cov").iter().map(ints).collect();
            for a in 0..3 {
                ensure!(close(r.update[a], x[a] as f64 / det, 1e-8), "solve", "parameter {a}: {} expected {}", r.update[a], x[a] as f64 / det);
                for d in 0..3 {
                    ensure!(close(r.covariance[a][d], c[a][d] as f64 / det, 1e-8), "covariance", "covariance {a},{d}: {} expected {}", r.covariance[a][d], c[a][d] as f64 / det);
                }
            }
            ensure!(r.n_obs as i64 == i(v, "nobs") && r.n_params == 3 && close(r.chi2, i(v, "chi2") as f64, 1e-12), "totals", "result totals {} {} {}", r.n_obs, r.n_params, r.chi2);
            let dof = ((i(v, "nobs") - 3) as f64).max(1.0);
            ensure!(close(r.reduced_chi2(), i(v, "chi2") as f64 / dof, 1e-12), "totals", "reduced chi2 {}", r.reduced_chi2());
            cov("solved");
        }
    }
    Ok(())
}

pub fn replay_iterate(v: &Value) -> Outcome {
    let obs: Vec<(String, f64, f64, f64)> = arr(v, "obs").iter().map(|o| { let h = ints(&o["h"]); (st(o, "k").to_string(), h[0] as f64, h[1] as f64, i(o, "z") as f64) }).collect();
    let truth = ints(&v["truth"]);
    let t = [truth[0] as f64, truth[1] as f64];
    let start = match st(v, "start") { "truth" => vec![t[0], t[1]], "near" => vec![t[0] + 0.1, t[1] - 0.07], "zero" => vec![0.0, 0.0], _ => vec![250.0, -1000.0] };
    let opt = st(v, "opt");
    let d = NonlinearOptions::default();
    let o = match opt {
        "once" => NonlinearOptions { max_iter: 1, ..d },
        "none" => NonlinearOptions { max_iter: 0, ..d },
        "nan" => NonlinearOptions { tol_rel: f64::NAN, ..d },
        "strict" => NonlinearOptions { tol_rel: 1e-13, tol_chi2_rel: 1e-13, max_iter: 20 },
        _ => NonlinearOptions { max_iter: 30, ..d },
    };
    let mut calls = 0;
    let r = gauss_newton(start, o, |p| {
        calls += 1;
        if opt == "fail2" && calls == 2 { return Err(NonlinearError::Solver(WlsSolverError::other("second"))); }
        let mut ne = NormalEquations::new(if opt == "width" { 3 } else { 2 });
        for (k, a, c, z) in &obs {
            let (f, g1, g2) = match k.as_str() { "lin" => (a * p[0] + c * p[1], *a, *c), "sq" => (p[0] * p[0], 2.0 * p[0], 0.0), _ => (p[0] * p[1], p[1], p[0]) };
            ne.add_row(&[(0, g1), (1, g2)], z - f, 0.5)?;
        }
        Ok(ne)
    });
    let x = ints(&v["x"]);
    let right = |p: &[f64]| x[2] != 0 && close(p[0], x[0] as f64 / x[2] as f64, 1e-6) && close(p[1], x[1] as f64 / x[2] as f64, 1e-6);
    let kind = if b(v, "exact") { "exact" } else { "noisy" };
    match (st(v, "expect"), r) {
        ("any", _) => {}
        ("refused", r) => ensure!(r.is_err(), "options", "{opt}: accepted"),
        ("failed", Err(NonlinearError::Solver(WlsSolverError::Other(m)))) if m == "second" => {}
        ("failed", r) => bail!("assembler", "the assembler's error on its second call was lost: {:?}", r.map(|r| r.parameters)),
        ("unconverged", Err(NonlinearError::DidNotConverge(1))) => {}
        ("unconverged", Ok(r)) => ensure!(right(&r.parameters), "iterate", "converged to {:?}", r.parameters),
        ("unconverged", Err(e)) => bail!("iterate", "{e}"),
        ("sound", Ok(r)) => ensure!(right(&r.parameters), "iterate", "converged to {:?}", r.parameters),
        ("sound", Err(_)) => {}
        (_, Ok(r)) => {
            ensure!(right(&r.parameters), "iterate", "{kind} observations: converged to {:?}, expected {:?}/{}", r.parameters, &x[..2], x[2]);
            ensure!(r.last.n_obs == obs.len() && r.last.n_params == 2 && r.iterations <= 30, "iterate", "report totals {} {} {}", r.last.n_obs, r.last.n_params, r.iterations);
            cov(if kind == "exact" { "exact_fits" } else { "noisy_fits" });
        }
        (_, Err(e)) => bail!("iterate", "{kind} observations: {e}"),
    }
    Ok(())
}

// --- sequential filter -----------------------------------------------------------------
fn comp(s: &OrbitState, k: usize) -> f64 {
    match k {
        0 => s.position.x().value(), 1 => s.position.y().value(), 2 => s.position.z().value(),
        3 => s.velocity.x().value(), 4 => s.velocity.y().value(), _ => s.velocity.z().value(),
    }
}
fn orbit(epoch: siderust::time::JulianDate, c: [f64; 6]) -> OrbitState {
    OrbitState::new(epoch.to_j2000s(), Position::<GCRS>::new(c[0], c[1], c[2]), Velocity::<GCRS>::new(c[3], c[4], c[5]))
}
pub fn replay_ekf(v: &Value) -> Outcome {
    let pr = ints(&v["pair"]);
    let (a, c) = (pr[0] as usize, pr[1] as usize);
    let p0 = ints(&v["start"]);
    let jd = |t: f64| siderust::time::JulianDate::new(2_451_545.0 + t / 86400.0);
    let mut t = 0.0;
    let mut x = [10.0, 20.0, 30.0, 40.0, 50.0, 60.0];
    x[a] = 1.0;
    x[c] = 2.0;
    // the other four components have variances of their own and must keep them
    let mut p = [[0.0; 6]; 6];
    for k in 0..6 { p[k][k] = 3.0 + k as f64; }
    p[a][a] = p0[0] as f64;
    p[c][c] = p0[2] as f64;
    let others = p;
    let mut f = OrbitEkf::new(orbit(jd(0.0), x), StateCovariance::<GCRS>::from_row_major(p));
    let recs = arr(v, "records");
    let mut noise_on = 0.0;
    for (k, op) in arr(v, "ops").iter().enumerate() {
        let rec = recs[k].as_array().unwrap();
        let what = rec[0].as_str().unwrap();
        let before = (*f.state(), f.covariance().to_row_major());
        let same = |f: &OrbitEkf| (0..6).all(|q| comp(f.state(), q) == comp(&before.0, q)) && f.covariance().to_row_major() == before.1 && f.state().epoch == before.0.epoch;
        match op[0].as_str().unwrap() {
            "go" => {
                let (dt, psd) = (op[1].as_i64().unwrap() as f64, op[2].as_i64().unwrap() as f64);
                let mut phi = [[0.0; 6]; 6];
                for q in 0..6 { phi[q][q] = 1.0; }
                phi[a][c] = dt;
                let mut y = [0.0; 6];
                for q in 0..6 { y[q] = comp(f.state(), q); }
                y[a] += dt * y[c];
                t += dt;
                let q = (psd != 0.0).then(|| {
                    // noise on the axis of the pair only; the gap's noise comes from the crate's own model
                    let mut w = [0.0; 3];
                    w[a % 3] = psd;
                    let m = ProcessNoiseModel { position_velocity: WhiteAccelPsd(w), drag_scale: None, srp_scale: None, empirical_white: None };
                    let q = m.q_matrix(Second::new(dt)).expect("process noise");
                    StateCovariance::<GCRS>::from_row_major(std::array::from_fn(|r| std::array::from_fn(|s| q[r][s])))
                });
                if q.is_some() { noise_on += dt; }
                f.predict(orbit(jd(t), y), phi, q);
                ensure!((0..6).all(|q| comp(f.state(), q) == y[q]) && f.state().epoch == jd(t).to_j2000s(), "predict", "op {k}: the predicted state was not taken over");
            }
            "see" => {
                let o: Vec<f64> = (1..5).map(|q| op[q].as_i64().unwrap() as f64).collect();
                let mut h = [0.0; 6];
                h[a] = o[0];
                h[c] = o[1];
                match f.update_scalar(h, o[3], o[2]) {
                    Ok(r) => {
                        ensure!(what == "seen", "update", "op {k} {op}: a singular update was accepted");
                        let (s, z) = (rec[1].as_i64().unwrap() as f64 / rec[2].as_i64().unwrap() as f64, rec[3].as_i64().unwrap() as f64);
                        ensure!(close(r.variance, s, 1e-9) && r.innovation == z && close(r.nis, z * z / s, 1e-9), "record", "op {k} {op}: record {r:?}, expected variance {s}, innovation {z}");
                        ensure!(f.state().epoch == before.0.epoch, "update", "op {k}: the update moved the epoch");
                        cov("updates");
                    }
                    Err(EkfError::Singular(_)) => { ensure!(what == "singular" && same(&f), "update", "op {k} {op}: singular, expected {what}, state kept: {}", same(&f)); cov("singular"); }
                    Err(e) => bail!("update", "op {k} {op}: {e}"),
                }
            }
            _ => {
                let mut h = [0.0; 6];
                h[a] = 1.0;
                let (mut z, mut r) = (1.0, 1.0);
                match op[1].as_str().unwrap() { "r-negative" => r = -1.0, "r-nan" => r = f64::NAN, "z-inf" => z = f64::INFINITY, "z-nan" => z = f64::NAN, _ => h[5 - a % 3] = f64::NAN }
                ensure!(f.update_scalar(h, z, r).is_err() && same(&f), "refused", "op {k} {op}: accepted, or the filter changed");
                cov("refused");
            }
        }
    }
    let _ = noise_on;
    let (pw, dw, xw, ew) = (ints(&v["P"]), i(v, "d") as f64, ints(&v["x"]), i(v, "e") as f64);
    let got = f.covariance().to_row_major();
    for r in 0..6 {
        for s in 0..6 {
            ensure!((got[r][s] - got[s][r]).abs() <= 1e-12 * (1.0 + got[r][s].abs()), "symmetry", "covariance {r},{s} {} against {}", got[r][s], got[s][r]);
            let want = match (r, s) { (r, s) if r == a && s == a => pw[0] as f64 / dw, (r, s) if r == c && s == c => pw[2] as f64 / dw, (r, s) if (r == a && s == c) || (r == c && s == a) => pw[1] as f64 / dw, _ => others[r][s] };
            ensure!(close(got[r][s], want, 1e-9), "covariance", "covariance {r},{s}: {} expected {want}", got[r][s]);
        }
        let want = if r == a { xw[0] as f64 / ew } else if r == c { xw[1] as f64 / ew } else { 10.0 * (r as f64 + 1.0) };
        ensure!(close(comp(f.state(), r), want, 1e-9), "state", "component {r}: {} expected {want}", comp(f.state(), r));
    }
    Ok(())
}

// --- thrust ------------------------------------------------------------------------------
fn dir(name: &str) -> ([f64; 3], [f64; 3]) {
    match name {
        "345" => ([3.0, 4.0, 0.0], [0.6, 0.8, 0.0]),
        "z" => ([0.0, 0.0, -2.0], [0.0, 0.0, -1.0]),
        "y" => ([0.0, 1.0, 0.0], [0.0, 1.0, 0.0]),
        "122" => ([1.0, -2.0, 2.0], [1.0 / 3.0, -2.0 / 3.0, 2.0 / 3.0]),
        "huge" => ([3e200, 0.0, -4e200], [0.6, 0.0, -0.8]),
        "tiny" => ([0.0, 3e-200, 4e-200], [0.0, 0.6, 0.8]),
        "zero" => ([0.0; 3], [0.0; 3]),
        "nan" => ([1.0, f64::NAN, 0.0], [0.0; 3]),
        _ => ([f64::INFINITY, 0.0, 0.0], [0.0; 3]),
    }
}
pub fn replay_thrust(v: &Value) -> Outcome {
    use siderust::time::{Time, UTC};
    let base = Time::<UTC>::try_from_chrono(chrono::DateTime::from_timestamp(946_728_000, 0).unwrap()).expect("epoch");
    let at = |s: i64| base + Second::new(s as f64);
    let m0 = i(v, "m0") as f64;
    let mut log = LowThrustLog::try_new(Kilograms::new(m0)).expect("mass");
    let records = arr(v, "log");
    let (mut dv, mut n, mut used) = (0.0, 0, 0.0);
    for (k, a) in arr(v, "arcs").iter().enumerate() {
        let isp = match i(a, "isp") { 99999 => f64::NAN, x => x as f64 };
        let kk = num(i(a, "k"));
        let thrust = kk * isp.abs().max(1.0) * G0_M_PER_S2;
        let thrust = if isp.is_nan() { 10.0 } else { thrust };
        let (raw, unit) = dir(st(a, "dir"));
        let force = force_newtons(thrust);
        let built = ThrustArc::with_normalised_direction(at(i(a, "s")), at(i(a, "e")), force, Second::new(isp), raw);
        let want = b(a, "build");
        let arc = match built {
            Ok(x) => {
                ensure!(want, "build", "arc {a} was accepted");
                ensure!((0..3).all(|q| (x.direction[q] - unit[q]).abs() < 1e-12), "direction", "arc {a}: direction {:?}, expected {unit:?}", x.direction);
                for y in arr(a, "at") {
                    let y = ints(y);
                    let acc = thrust_acceleration(&x, Kilograms::new(500.0), at(y[0])).expect("acceleration");
                    ensure!(x.is_active(at(y[0])) == (y[1] == 1), "active", "arc {a} active at {}: {}", y[0], x.is_active(at(y[0])));
                    for q in 0..3 {
                        let w = if y[1] == 1 { thrust / 500.0 * unit[q] } else { 0.0 };
                        ensure!(close(acc[q], w, 1e-12) || thrust.is_nan(), "acceleration", "arc {a} at {}: {acc:?}", y[0]);
                    }
                }
                for m in [0.0, -1.0, f64::NAN, f64::INFINITY] {
                    ensure!(thrust_acceleration(&x, Kilograms::new(m), at(i(a, "s"))).is_err(), "mass", "acceleration of a mass of {m} kg");
                }
                x
            }
            Err(e) => {
                ensure!(!want, "build", "arc {a} was refused: {e}");
                ThrustArc { start: at(i(a, "s")), stop: at(i(a, "e")), thrust: force, isp: Second::new(isp), direction: [0.0, 0.0, 1.0] }
            }
        };
        let before = (log.current_mass(), log.total_delta_v(), log.total_propellant(), log.records().to_vec());
        let r = log.append(&arc).cloned();
        let w = &records[k];
        if b(w, "ok") {
            let r = match r { Ok(r) => r, Err(e) => bail!("append", "arc {k} {a} was refused: {e}") };
            let (bf, us, du) = (i(w, "before") as f64, i(w, "used") as f64, i(w, "dur") as f64);
            let d = i(w, "isp") as f64 * G0_M_PER_S2 * (bf / (bf - us)).ln();
            ensure!(close(r.wet_mass_before.value(), bf, 1e-9) && close(r.propellant_used.value(), us, 1e-9) && close(r.duration.value(), du, 1e-9) && close(r.delta_v.value(), d, 1e-9), "record", "arc {k}: {r:?}, expected mass {bf} using {us} over {du} s for {d} m/s");
            ensure!(close(mass_flow_rate(force, Second::new(isp)).unwrap(), kk, 1e-12), "flow", "mass flow of arc {k}");
            dv += d;
            used += us;
            n += 1;
            cov("burns");
        } else {
            ensure!(r.is_err(), "append", "arc {k} {a} was accepted: {r:?}");
            ensure!(before.0 == log.current_mass() && before.1 == log.total_delta_v() && before.2 == log.total_propellant() && before.3 == log.records(), "refused", "the refused arc {k} {a} changed the log");
            cov("refused");
        }
    }
    ensure!(close(log.current_mass().value(), i(v, "mass") as f64, 1e-9) && close(log.total_propellant().value(), used, 1e-9) && close(log.total_delta_v().value(), dv, 1e-9) && log.records().len() == n,
        "totals", "mass {} propellant {} dv {} after {} burns, expected {} {used} {dv} {n}", log.current_mass().value(), log.total_propellant().value(), log.total_delta_v().value(), log.records().len(), i(v, "mass"));
    Ok(())
}
fn force_newtons(x: f64) -> force::Newtons { force::Newtons::new(x) }

// --- process noise -----------------------------------------------------------------------
pub fn replay_noise(v: &Value) -> Outcome {
    let plan = ints(&v["plan"]);
    let seg: Vec<PiecewiseSegment> = plan.iter().enumerate().map(|(k, d)| PiecewiseSegment { duration: Second::new(*d as f64), sigma_pos_m: (k + 1) as f64, sigma_vel_mps: (k + 1) as f64 * 0.1 }).collect();
    let n = ProcessNoise::PiecewiseConstant { intervals: seg };
    for a in arr(v, "at") {
        let a = ints(a);
        let s = n.sigma_at(Second::new(a[0] as f64));
        ensure!(s.0 == a[1] as f64 && (s.1 - a[1] as f64 * 0.1).abs() < 1e-12, "plan", "{plan:?} at {}: {s:?}, expected segment {}", a[0], a[1]);
        cov("lookups");
    }
    // every layout of the full noise matrix: blocks in order, gaps composed of two legs
    let gm = |s: f64, t: f64| GaussMarkovParams { sigma: s, tau: Second::new(t) };
    for mask in 0..8 {
        let m = ProcessNoiseModel { position_velocity: WhiteAccelPsd([1.0, 2.0, 3.0]), drag_scale: (mask & 1 != 0).then(|| gm(0.5, 100.0)), srp_scale: (mask & 2 != 0).then(|| gm(0.25, 40.0)),
            empirical_white: (mask & 4 != 0).then(|| [KmPerSecondsSquared::new(1e-3), KmPerSecondsSquared::new(2e-3), KmPerSecondsSquared::new(3e-3)]) };
        let dim = 6 + (mask & 1) + (mask >> 1 & 1) + 3 * (mask >> 2 & 1);
        ensure!(m.dim() == dim, "noise", "dimension {} expected {dim}", m.dim());
        for (a, c) in plan.iter().zip(plan.iter().skip(1)) {
            let (a, c) = (*a as f64, *c as f64);
            let q = |t: f64| m.q_matrix(Second::new(t)).expect("process noise");
            let (qa, qc, qs) = (q(a), q(c), q(a + c));
            // transition over the second leg: positions move with velocities, the Gauss-Markov states decay
            let mut phi = vec![vec![0.0; dim]; dim];
            for k in 0..dim { phi[k][k] = 1.0; }
            for k in 0..3 { phi[k][k + 3] = c; }
            let mut k = 6;
            if mask & 1 != 0 { phi[k][k] = (-c / 100.0f64).exp(); k += 1; }
            if mask & 2 != 0 { phi[k][k] = (-c / 40.0f64).exp(); }
            for r in 0..dim {
                for s in 0..dim {
                    let mut w = qc[r][s];
                    for x in 0..dim { for y in 0..dim { w += phi[r][x] * qa[x][y] * phi[s][y]; } }
                    ensure!(close(qs[r][s], w, 1e-12), "legs", "noise over {a}+{c} s, entry {r},{s}: {} in one leg, {w} in two", qs[r][s]);
                    ensure!(qs[r][s] == qs[s][r], "legs", "noise matrix is not symmetric at {r},{s}");
                }
            }
            ensure!(m.is_psd(Second::new(a + c)).unwrap(), "psd", "noise over {} s is not positive semidefinite", a + c);
            cov("gaps");
        }
        ensure!(m.q_matrix(Second::new(-1.0)).is_err() && m.q_matrix(Second::new(f64::NAN)).is_err(), "noise", "a negative or undefined gap was accepted");
    }
    Ok(())
}
