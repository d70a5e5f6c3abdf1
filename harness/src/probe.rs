//! Reproducers of the known findings listed in known_findings.txt. Each returns true while the
//! defect is present.
use linalg::matrix::Matrix;
use open_ahrs::davenport::Davenport;

/// A correctly initialised Davenport filter refuses every sample.
fn davenport_refuses() -> bool {
    let Ok(mut d) = Davenport::new() else { return false };
    if d.init(1.0, 1.0, None, None).is_err() {
        return false;
    }
    d.update(0.0, 0.0, -9.81, 20.0, 0.0, 40.0).is_err()
}

/// The Lyapunov solver returns the null matrix for A = I/2, Q = I (the solution is 4/3 I).
fn dlyap_null() -> bool {
    let diag = |x: f32| {
        let mut m = Matrix::new();
        let _ = m.init(2, 2);
        let _ = m.set_element(0, 0, x);
        let _ = m.set_element(1, 1, x);
        m
    };
    match diag(0.5).dlyap(&diag(1.0)) {
        Ok(p) => p.get_element(0, 0) == Ok(0.0) && p.get_element(1, 1) == Ok(0.0),
        Err(_) => false,
    }
}

pub const PROBES: &[(&str, fn() -> bool)] = &[("davenport-update", davenport_refuses), ("dlyap-null", dlyap_null)];

/// Exit code 1 when the finding is present, 0 when it is gone, 2 when the probe is unknown.
pub fn run(id: &str) -> (i32, String) {
    match PROBES.iter().find(|p| p.0 == id) {
        None => (2, format!("unknown probe {id}\n")),
        Some(p) => match (p.1)() {
            true => (1, "present\n".into()),
            false => (0, "absent\n".into()),
        },
    }
}
