//! Text encodings of every type, and files.
use crate::sym::*;
use crate::topo::*;
use crate::types::*;
use crate::user::*;
use dess::prelude::*;
use dess::solver::*;
use dess::SystemState;
use dess::SystemStateHistoryVec;
use dess_examples::components::*;

fn said<T>(r: Result<T, anyhow::Error>) -> Option<T> {
    at("ok", || out_u(r.is_ok() as u64));
    match r {
        Ok(x) => Some(x),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}
fn name() -> String {
    let n = inn("name.len");
    let v: Vec<u8> = at("name", || (0..n).map(|k| ati(k, || inu("") as u8)).collect());
    // the host only supplies ASCII
    unsafe { String::from_utf8_unchecked(v) }
}
fn text<S: SerdeAPI + Dump + Make>() {
    let s: S = at("s", S::make);
    at("before", || s.dump());
    match inu("what") {
        0 => {
            let t = s.to_json();
            if let Some(r) = said(S::from_json(&t)) {
                at("after", || r.dump());
            }
        }
        _ => {
            let t = s.to_yaml();
            if let Some(r) = said(S::from_yaml(&t)) {
                at("after", || r.dump());
            }
        }
    }
}
fn files<S: SerdeAPI + Dump + Make>() {
    let f = name();
    for k in 0..inn("n_ops") {
        ati(k, || match inu("op") {
            0 => {
                let s: S = at("s", S::make);
                at("before", || s.dump());
                said(s.to_file(&f));
            }
            1 => {
                if let Some(r) = said(S::from_file(&f)) {
                    at("after", || r.dump());
                }
            }
            // what the file should hold
            2 => {
                let s: S = at("s", S::make);
                bytes(s.to_json().as_bytes());
            }
            3 => {
                let s: S = at("s", S::make);
                bytes(s.to_yaml().as_bytes());
            }
            // what it holds
            _ => match std::fs::read(&f) {
                Ok(b) => bytes(&b),
                Err(_) => at("absent", || out_u(1)),
            },
        })
    }
}
fn bytes(b: &[u8]) {
    at("len", || out_u(b.len() as u64));
    for (k, x) in b.iter().enumerate() {
        ati(k, || out_u(*x as u64));
    }
}
macro_rules! pick { ($f: ident) => { match inu("type") {
    0 => $f::<SystemState>(),
    1 => $f::<SystemStateHistoryVec>(),
    2 => $f::<SolverState>(),
    3 => $f::<SolverStateHistoryVec>(),
    4 => $f::<AdaptiveSolverConfig>(),
    5 => $f::<SolverTypes>(),
    6 => $f::<ThermalMassState>(),
    7 => $f::<ThermalMassStateHistoryVec>(),
    8 => $f::<ConductanceState>(),
    9 => $f::<ConductanceStateHistoryVec>(),
    10 => $f::<ThermalMass>(),
    11 => $f::<ThermalReservoir>(),
    12 => $f::<Conductance>(),
    13 => $f::<System3TM>(),
    14 => $f::<System3TMWithBC>(),
    _ => $f::<UsrMix>(),
} } }
#[no_mangle]
pub extern "C" fn h_text() {
    pick!(text)
}
#[no_mangle]
pub extern "C" fn h_file() {
    match inu("type") {
        0 => files::<SystemState>(),
        2 => files::<SolverState>(),
        _ => files::<Conductance>(),
    }
}
