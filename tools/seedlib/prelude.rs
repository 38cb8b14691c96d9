#![allow(unused, clippy::all)]
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys as three;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys as bc;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use serde::{Deserialize, Serialize};

#[derive(Copy, HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct NodeState {
    pub x: f64,
    pub dx: f64,
}
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Node {
    pub c: f64,
    pub state: NodeState,
    pub history: NodeStateHistoryVec,
}
impl HasState for Node {
    fn state(&self) -> f64 { self.state.x }
    fn set_state(&mut self, val: f64) { self.state.x = val; }
    fn deriv(&self) -> f64 { self.state.dx }
    fn set_deriv(&mut self, val: f64) { self.state.dx = val; }
    fn storage(&self) -> f64 { self.c }
}
/// right-hand side, chosen by each demonstration
static mut F: fn(f64, f64, f64) -> (f64, f64) = |_, _, _| (0.0, 0.0);
#[derive(HistoryMethods, BareClone, Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let f = unsafe { F };
        let (p, q) = f(self.state.time, self.a.state.x, self.b.state.x);
        self.a.step_deriv(p);
        self.b.step_deriv(q);
    }
)]
#[common_derives]
pub struct Two {
    pub solver_type: SolverTypes,
    #[use_state]
    pub a: Node,
    #[use_state]
    pub b: Node,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
fn two(st: SolverTypes, a: f64, b: f64, t: Vec<f64>, f: fn(f64, f64, f64) -> (f64, f64)) -> Two {
    unsafe { F = f; }
    let mut s = Two { solver_type: st, t_report: t, ..Default::default() };
    s.a.state.x = a;
    s.b.state.x = b;
    s.a.c = 2.0;
    s.b.c = 3.0;
    s
}
fn cfg(dt: f64, dt_max: f64, max_iter: u8, rtol: f64, atol: f64) -> Box<AdaptiveSolverConfig> {
    let mut c = AdaptiveSolverConfig { dt_max, max_iter, rtol, atol, ..Default::default() };
    c.state.dt = dt;
    Box::new(c)
}
fn close(a: f64, b: f64) -> bool { (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs()) }
fn need(ok: bool, what: &str) {
    if !ok {
        eprintln!("demonstrated: {}", what);
        std::process::exit(1);
    }
}
