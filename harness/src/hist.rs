//! History containers, grids, comparisons.
use crate::fields;
use crate::sym::*;
use crate::user::*;
use dess::prelude::*;
use dess::solver::*;
use dess::SystemState;
use dess::SystemStateHistoryVec;
use dess_examples::components::*;
use serde::{Deserialize, Serialize};

/// many fields of different types
#[derive(HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct WideState {
    pub k: u32,
    pub a: f64,
    pub flag: bool,
    pub o: Option<f64>,
    pub b: f64,
    pub l: Vec<f64>,
    pub n: usize,
}
fields!(WideState { k, a, flag, o, b, l, n });
fields!(WideStateHistoryVec { k, a, flag, o, b, l, n });
/// a single, unsized field
#[derive(HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct ListState {
    pub l: Vec<f64>,
}
fields!(ListState { l });
fields!(ListStateHistoryVec { l });

pub trait Hist: Dump + Make {
    type S: Dump + Make;
    fn new_() -> Self;
    fn push_(&mut self, s: Self::S);
    fn pop_(&mut self) -> Option<Self::S>;
    fn clear_(&mut self);
    fn len_(&self) -> usize;
    fn is_empty_(&self) -> bool;
}
macro_rules! hist { ($($s:ident $h:ident),*) => { $(
    impl Hist for $h {
        type S = $s;
        fn new_() -> Self { $h::new() }
        fn push_(&mut self, s: $s) { self.push(s) }
        fn pop_(&mut self) -> Option<$s> { self.pop() }
        fn clear_(&mut self) { self.clear() }
        fn len_(&self) -> usize { self.len() }
        fn is_empty_(&self) -> bool { self.is_empty() }
    }
)* } }
hist!(SystemState SystemStateHistoryVec, SolverState SolverStateHistoryVec, ThermalMassState ThermalMassStateHistoryVec,
    ConductanceState ConductanceStateHistoryVec, NodeState NodeStateHistoryVec, ProbeState ProbeStateHistoryVec,
    WideState WideStateHistoryVec, ListState ListStateHistoryVec);

fn ops<H: Hist>() {
    let mut h: H = if inb("fresh") { H::new_() } else { at("h", H::make) };
    for i in 0..inn("n_ops") {
        ati(i, || match inu("op") {
            0 => h.push_(at("x", Make::make)),
            1 => at("pop", || h.pop_().dump()),
            2 => h.clear_(),
            _ => at("dump", || {
                at("n", || out_u(h.len_() as u64));
                at("empty", || h.is_empty_().dump());
                at("h", || h.dump());
            }),
        })
    }
}
#[no_mangle]
pub extern "C" fn h_hist() {
    match inu("type") {
        0 => ops::<SystemStateHistoryVec>(),
        1 => ops::<SolverStateHistoryVec>(),
        2 => ops::<ThermalMassStateHistoryVec>(),
        3 => ops::<ConductanceStateHistoryVec>(),
        4 => ops::<NodeStateHistoryVec>(),
        5 => ops::<ProbeStateHistoryVec>(),
        6 => ops::<WideStateHistoryVec>(),
        _ => ops::<ListStateHistoryVec>(),
    }
}
#[no_mangle]
pub extern "C" fn h_util() {
    for i in 0..inn("n_ops") {
        ati(i, || match inu("op") {
            0 => at("lin", || Vec::<f64>::linspace(inf("a"), inf("b"), inn("n")).dump()),
            1 => {
                let v: Vec<f64> = at("v", Make::make);
                at("diff", || v.diff().dump())
            }
            2 => {
                let v = Vec::<f64>::linspace(inf("a"), inf("b"), inn("n"));
                at("diff", || v.diff().dump())
            }
            3 => at("eq", || dess::utilities::almost_eq(inf("a"), inf("b"), at("eps", Make::make)).dump()),
            4 => at("eq", || dess::utilities::almost_eq(inf("b"), inf("a"), at("eps", Make::make)).dump()),
            _ => at("eq", || dess::utilities::almost_eq(-inf("a"), -inf("b"), at("eps", Make::make)).dump()),
        })
    }
}
