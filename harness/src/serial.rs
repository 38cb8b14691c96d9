//! Binary encoding of every type.
use crate::hist::*;
use crate::sym::*;
use crate::topo::*;
use crate::types::*;
use crate::user::*;
use dess::prelude::*;
use dess::solver::*;
use dess::SystemState;
use dess::SystemStateHistoryVec;
use dess_examples::components::*;

/// 0: encode, decode, dump; 1: decode every strict prefix; 2: encode twice
fn binary<S: SerdeAPI + Dump + Make>() {
    let s: S = at("s", S::make);
    let b = s.to_bincode();
    match inu("what") {
        0 => {
            at("before", || s.dump());
            match S::from_bincode(&b) {
                Ok(r) => {
                    at("ok", || out_u(1));
                    at("after", || r.dump());
                }
                Err(_) => at("ok", || out_u(0)),
            }
        }
        _ => {
            at("size", || out_u(b.len() as u64));
            let mut bad = 0u64;
            for k in 0..b.len() {
                if S::from_bincode(&b[..k]).is_ok() {
                    bad += 1;
                }
            }
            at("accepted", || out_u(bad));
        }
    }
}
#[no_mangle]
pub extern "C" fn h_bin() {
    match inu("type") {
        0 => binary::<SystemState>(),
        1 => binary::<SystemStateHistoryVec>(),
        2 => binary::<SolverState>(),
        3 => binary::<SolverStateHistoryVec>(),
        4 => binary::<AdaptiveSolverConfig>(),
        5 => binary::<SolverTypes>(),
        6 => binary::<ThermalMassState>(),
        7 => binary::<ThermalMassStateHistoryVec>(),
        8 => binary::<ConductanceState>(),
        9 => binary::<ConductanceStateHistoryVec>(),
        10 => binary::<ThermalMass>(),
        11 => binary::<ThermalReservoir>(),
        12 => binary::<Conductance>(),
        13 => binary::<System3TM>(),
        14 => binary::<System3TMWithBC>(),
        15 => binary::<UsrMix>(),
        16 => binary::<WideState>(),
        17 => binary::<WideStateHistoryVec>(),
        _ => binary::<TRes>(),
    }
}
