//! A family of connection topologies built with the public relationship macros.
use crate::sym::*;
use crate::user::*;
use crate::{fields, sys};
use dess::prelude::*;
use dess_examples::components::*;
use serde::{Deserialize, Serialize};

/// nonlinear flow element: the host supplies the law
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Law {
    pub id: u32,
    pub state: ConductanceState,
    pub history: ConductanceStateHistoryVec,
}
fields!(Law { id, state, history });
impl Flow for Law {
    fn flow(&self) -> f64 {
        self.state.q
    }
    fn set_flow(&mut self, p0: &dyn HasState, p1: &dyn HasState) {
        self.state.q = user(self.id as usize, 0.0, &[p0.state(), p1.state()]);
    }
}

macro_rules! topo {
    ($name:ident, [$($m:ident: $mt:ty),*], [$($h:ident: $ht:ty),*], $(($a:ident, $b:ident, $c:ident)),+) => {
        #[solver(
            fn update_derivs(&mut self) {
                self.reset_derivs();
                connect_states!(self, $(($a, $b, $c)),+);
                update_derivs!(self, $(($a, $b, $c)),+);
            }
        )]
        #[derive(HistoryMethods, BareClone, Default)]
        #[common_derives]
        pub struct $name {
            pub solver_type: SolverTypes,
            $( #[use_state] pub $m: $mt, )*
            $( #[save_state] pub $h: $ht, )*
            pub t_report: Vec<f64>,
            pub state: SystemState,
            pub history: SystemStateHistoryVec,
        }
        fields!($name { solver_type, $($m,)* $($h,)* t_report, state, history });
        sys!($name);
    };
}
topo!(TPair, [m1: ThermalMass, m2: ThermalMass], [h1: Conductance], (m1, m2, h1));
topo!(TPar, [m1: ThermalMass, m2: ThermalMass], [h1: Conductance, h2: Conductance], (m1, m2, h1), (m2, m1, h2));
topo!(TChain4, [m1: ThermalMass, m2: ThermalMass, m3: ThermalMass, m4: ThermalMass],
    [h1: Conductance, h2: Conductance, h3: Conductance], (m1, m2, h1), (m2, m3, h2), (m3, m4, h3));
topo!(TStar4, [m1: ThermalMass, m2: ThermalMass, m3: ThermalMass, m4: ThermalMass],
    [h1: Conductance, h2: Conductance, h3: Conductance], (m1, m2, h1), (m1, m3, h2), (m1, m4, h3));
topo!(TCycle3, [m1: ThermalMass, m2: ThermalMass, m3: ThermalMass],
    [h1: Conductance, h2: Conductance, h3: Conductance], (m1, m2, h1), (m2, m3, h2), (m3, m1, h3));
topo!(TFull4, [m1: ThermalMass, m2: ThermalMass, m3: ThermalMass, m4: ThermalMass],
    [h1: Conductance, h2: Conductance, h3: Conductance, h4: Conductance, h5: Conductance, h6: Conductance, h7: Conductance],
    (m1, m2, h1), (m3, m2, h2), (m3, m4, h3), (m4, m1, h4), (m1, m3, h5), (m4, m2, h6), (m4, m2, h7));
topo!(TRes, [r: ThermalReservoir, m1: ThermalMass, m2: ThermalMass, s: ThermalReservoir],
    [h1: Conductance, h2: Conductance, h3: Conductance, h4: Conductance], (r, m1, h1), (m1, m2, h2), (s, m2, h3), (r, s, h4));
topo!(TLaw, [m1: Node, m2: ThermalMass, m3: Node, r: ThermalReservoir],
    [h1: Law, h2: Law, h3: Law, h4: Law], (m1, m2, h1), (m2, m3, h2), (m3, m1, h3), (r, m3, h4));

/// reservoir whose prescribed temperature is an arbitrary function of time
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        self.r.state.temp = user(9, self.state.time, &[]);
        connect_states!(self, (r, m1, h1), (m1, m2, h2));
        update_derivs!(self, (r, m1, h1), (m1, m2, h2));
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct TBc {
    pub solver_type: SolverTypes,
    #[use_state]
    pub r: ThermalReservoir,
    #[use_state]
    pub m1: ThermalMass,
    #[use_state]
    pub m2: ThermalMass,
    #[save_state]
    pub h1: Conductance,
    #[save_state]
    pub h2: Conductance,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
fields!(TBc { solver_type, r, m1, m2, h1, h2, t_report, state, history });
sys!(TBc);
