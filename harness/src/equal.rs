//! Comparison and copies of every type.
use crate::hist::*;
use crate::sym::*;
use crate::topo::*;
use crate::types::*;
use crate::user::*;
use dess::prelude::*;
use dess::solver::*;
use dess::SystemState;
use dess::SystemStateHistoryVec;
use dess_examples::components::*;

fn compare<S: PartialEq + Clone + Dump + Make>() {
    let a: S = at("a", S::make);
    let mut b: S = at("b", S::make);
    at("x", || a.dump());
    at("y", || b.dump());
    match inu("what") {
        0 => {
            at("eq", || out_u((a == b) as u64));
            at("ne", || out_u((a != b) as u64));
            at("qe", || out_u((b == a) as u64));
        }
        1 => {
            let c = a.clone();
            drop(a);
            at("copy", || c.dump());
        }
        _ => {
            b.clone_from(&a);
            at("copy", || b.dump());
            let c: S = at("c", S::make);
            b = c;
            at("copied", || a.dump());
            drop(b);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_eq() {
    match inu("type") {
        0 => compare::<SystemState>(),
        1 => compare::<SystemStateHistoryVec>(),
        2 => compare::<SolverState>(),
        3 => compare::<SolverStateHistoryVec>(),
        4 => compare::<AdaptiveSolverConfig>(),
        5 => compare::<SolverTypes>(),
        6 => compare::<ThermalMassState>(),
        7 => compare::<ThermalMassStateHistoryVec>(),
        8 => compare::<ConductanceState>(),
        9 => compare::<ConductanceStateHistoryVec>(),
        10 => compare::<ThermalMass>(),
        11 => compare::<ThermalReservoir>(),
        12 => compare::<Conductance>(),
        13 => compare::<System3TM>(),
        14 => compare::<System3TMWithBC>(),
        15 => compare::<UsrMix>(),
        16 => compare::<WideState>(),
        17 => compare::<WideStateHistoryVec>(),
        _ => compare::<TRes>(),
    }
}
