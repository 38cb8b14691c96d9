//! Systems written against the public macros whose right-hand side is an arbitrary
//! function supplied by the host (an uninterpreted function for the solver).
use crate::sym::*;
use crate::{fields, sys};
use dess::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Copy, HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct NodeState {
    pub x: f64,
    pub dx: f64,
}
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Node {
    pub c: f64,
    pub state: NodeState,
    pub history: NodeStateHistoryVec,
}
fields!(NodeState { x, dx });
fields!(NodeStateHistoryVec { x, dx });
fields!(Node { c, state, history });
impl HasState for Node {
    fn state(&self) -> f64 {
        self.state.x
    }
    fn set_state(&mut self, val: f64) {
        self.state.x = val;
    }
    fn deriv(&self) -> f64 {
        self.state.dx
    }
    fn set_deriv(&mut self, val: f64) {
        self.state.dx = val;
    }
    fn storage(&self) -> f64 {
        self.c
    }
}
/// saved but not state-bearing
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct ProbeState {
    pub s: f64,
    pub k: u32,
}
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Probe {
    pub gain: f64,
    pub state: ProbeState,
    pub history: ProbeStateHistoryVec,
}
fields!(ProbeState { s, k });
fields!(ProbeStateHistoryVec { s, k });
fields!(Probe { gain, state, history });

macro_rules! user_sys {
    ($name:ident, $($f:ident $k:literal),*) => {
        #[solver(
            fn update_derivs(&mut self) {
                self.reset_derivs();
                let ys = [$(self.$f.state.x),*];
                let t = self.state.time;
                $( self.$f.set_deriv(user($k, t, &ys)); )*
            }
        )]
        #[derive(HistoryMethods, BareClone, Default)]
        #[common_derives]
        pub struct $name {
            pub solver_type: SolverTypes,
            $( #[use_state] pub $f: Node, )*
            pub t_report: Vec<f64>,
            pub state: SystemState,
            pub history: SystemStateHistoryVec,
        }
        fields!($name { solver_type, $($f,)* t_report, state, history });
        sys!($name);
    };
}
user_sys!(Usr1, a 0);
user_sys!(Usr2, a 0, b 1);
user_sys!(Usr3, a 0, b 1, c 2);
user_sys!(Usr4, a 0, b 1, c 2, d 3);
user_sys!(Usr5, a 0, b 1, c 2, d 3, e 4);
user_sys!(Usr9, a 0, b 1, c 2, d 3, e 4, f 5, g 6, h 7, i 8);

/// layout with marked, unmarked, nested and interleaved components
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Group {
    #[save_state]
    pub p: Probe,
    pub un: Probe,
    #[use_state]
    pub q: Probe,
    pub gain: f64,
    pub state: ProbeState,
    pub history: ProbeStateHistoryVec,
}
fields!(Group { p, un, q, gain, state, history });
/// marked components but no own state
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Rack {
    #[save_state]
    pub g: Group,
    pub k: u32,
    #[save_state]
    pub p: Probe,
}
fields!(Rack { g, k, p });
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let ys = [self.z.state.x, self.b.state.x];
        let t = self.state.time;
        self.b.set_deriv(user(1, t, &ys));
        self.z.set_deriv(user(0, t, &ys));
        self.p1.state.s = user(2, t, &ys);
        self.un.state.x = user(3, t, &ys);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct UsrMix {
    pub extra: f64,
    #[use_state]
    pub z: Node,
    pub un: Node,
    #[save_state]
    pub p1: Probe,
    #[use_state]
    pub b: Node,
    #[save_state]
    pub rack: Rack,
    pub flag: bool,
    pub solver_type: SolverTypes,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
fields!(UsrMix { extra, z, un, p1, b, rack, flag, solver_type, t_report, state, history });
sys!(UsrMix);
