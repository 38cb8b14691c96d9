use crate::fields;
use crate::sym::*;
use dess::prelude::*;
use dess_examples::components::*;
pub use dess_examples::three_thermal_mass_sys::System3TM;
pub use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;

fields!(SystemState { i, time });
fields!(SystemStateHistoryVec { i, time });
fields!(SolverState { dt, n_iter, norm_err, norm_err_rel, t_curr, states });
fields!(SolverStateHistoryVec { dt, n_iter, norm_err, norm_err_rel, t_curr, states });
fields!(AdaptiveSolverConfig { dt_max, max_iter, atol, rtol, save, save_states, state, history });
fields!(ThermalMassState { temp, dtemp });
fields!(ThermalMassStateHistoryVec { temp, dtemp });
fields!(ConductanceState { q });
fields!(ConductanceStateHistoryVec { q });
fields!(ThermalMass { c, state, history });
fields!(ThermalReservoir { state, history });
fields!(Conductance { h, state, history });
fields!(System3TM { solver_type, m1, m2, h12, m3, h23, t_report, state, history });
fields!(System3TMWithBC { solver_type, m1, m2, h12, m3, h23, t_report, state, history });

/// 0 euler, 1 heun, 2 midpoint, 3 ralston, 4 rk4, 5 rk23, 6 rk45
pub fn method_of(s: &SolverTypes) -> u64 {
    match s {
        SolverTypes::EulerFixed { .. } => 0,
        SolverTypes::HeunsMethod { .. } => 1,
        SolverTypes::MidpointMethod { .. } => 2,
        SolverTypes::RalstonsMethod { .. } => 3,
        SolverTypes::RK4Fixed { .. } => 4,
        SolverTypes::RK23BogackiShampine(_) => 5,
        SolverTypes::RK45CashKarp(_) => 6,
    }
}
impl Dump for SolverTypes {
    fn dump(&self) {
        at("method", || out_u(method_of(self)));
        match self {
            SolverTypes::EulerFixed { dt }
            | SolverTypes::HeunsMethod { dt }
            | SolverTypes::MidpointMethod { dt }
            | SolverTypes::RalstonsMethod { dt }
            | SolverTypes::RK4Fixed { dt } => at("dt", || dt.dump()),
            SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => {
                at("cfg", || c.dump())
            }
        }
    }
}
impl Make for SolverTypes {
    fn make() -> Self {
        match inu("method") {
            0 => SolverTypes::EulerFixed { dt: inf("dt") },
            1 => SolverTypes::HeunsMethod { dt: inf("dt") },
            2 => SolverTypes::MidpointMethod { dt: inf("dt") },
            3 => SolverTypes::RalstonsMethod { dt: inf("dt") },
            4 => SolverTypes::RK4Fixed { dt: inf("dt") },
            5 => SolverTypes::RK23BogackiShampine(at("cfg", Make::make)),
            _ => SolverTypes::RK45CashKarp(at("cfg", Make::make)),
        }
    }
}

/// what the harness can do with any system
pub trait Sys: SolverVariantMethods + Dump + Make + Clone {
    fn walk_(&mut self);
    fn solve_step_(&mut self);
    fn save_state_(&mut self);
    fn t_report_(&mut self) -> &mut Vec<f64>;
    fn state_mut_(&mut self) -> &mut SystemState;
    fn solver_(&mut self) -> &mut SolverTypes;
}
#[macro_export]
macro_rules! sys {
    ($t:ty) => {
        impl $crate::types::Sys for $t {
            fn walk_(&mut self) { self.walk() }
            fn solve_step_(&mut self) { self.solve_step() }
            fn save_state_(&mut self) { self.save_state() }
            fn t_report_(&mut self) -> &mut Vec<f64> { &mut self.t_report }
            fn state_mut_(&mut self) -> &mut SystemState { &mut self.state }
            fn solver_(&mut self) -> &mut SolverTypes { &mut self.solver_type }
        }
    };
}
sys!(System3TM);
sys!(System3TMWithBC);
