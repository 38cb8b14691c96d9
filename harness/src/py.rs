//! What Python sees: constructors, getters, copies and the methods that wrap Rust ones.
use crate::sym::*;
use crate::types::*;
use dess::prelude::*;
use dess::SystemState;
use dess::SystemStateHistoryVec;
use dess_examples::components::*;

macro_rules! show { ($($n:literal: $v:expr),*) => {{ $( at($n, || $v.dump()); )* }} }

/// the methods every class has
macro_rules! class {
    ($f:ident, $t:ty, $($g:ident: $get:ident),*) => {
        fn $f() {
            let mut s: $t = at("s", Make::make);
            at("is", || s.dump());
            match inu("what") {
                0 => at("got", || { $( at(stringify!($g), || s.$get().dump()); )* }),
                1 => show!("copy": s.verif_py___copy__(), "deepcopy": s.verif_py___deepcopy__(), "clone": s.verif_py_clone(), "kept": s),
                2 => {
                    let a = s.verif_py_to_json();
                    at("json", || out_u(a.is_ok() as u64));
                    let a = a.unwrap_or_default();
                    at("same json", || out_u((a == s.to_json()) as u64));
                    let r = <$t>::verif_py_from_json(&a);
                    at("ok", || out_u(r.is_ok() as u64));
                    if let Ok(r) = r { at("after", || r.dump()) }
                }
                3 => {
                    let a = s.verif_py_to_yaml();
                    at("yaml", || out_u(a.is_ok() as u64));
                    let a = a.unwrap_or_default();
                    at("same yaml", || out_u((a == s.to_yaml()) as u64));
                    let r = <$t>::verif_py_from_yaml(&a);
                    at("ok", || out_u(r.is_ok() as u64));
                    if let Ok(r) = r { at("after", || r.dump()) }
                }
                4 => {
                    let r = <$t>::verif_py_from_json("{");
                    at("bad json", || out_u(r.is_ok() as u64));
                    std::mem::forget(r);
                    let r = <$t>::verif_py_from_yaml("{");
                    at("bad yaml", || out_u(r.is_ok() as u64));
                    std::mem::forget(r);
                }
                _ => {
                    let name = if inu("yaml") == 1 { "a.yaml" } else { "a.json" };
                    let r = <$t>::verif_py_from_file(name);
                    at("missing", || out_u(r.is_ok() as u64));
                    std::mem::forget(r);
                    let r = s.verif_py_to_file(name);
                    at("saved", || out_u(r.is_ok() as u64));
                    std::mem::forget(r);
                    let r = <$t>::verif_py_from_file(name);
                    at("ok", || out_u(r.is_ok() as u64));
                    if let Ok(r) = &r { at("after", || r.dump()) }
                    std::mem::forget(r);
                }
            }
            let _ = &mut s;
        }
    };
}
class!(c_system_state, SystemState, i: verif_py_get_i, time: verif_py_get_time);
class!(c_system_hist, SystemStateHistoryVec, i: verif_py_get_i, time: verif_py_get_time);
class!(c_solver_state, SolverState, dt: verif_py_get_dt, n_iter: verif_py_get_n_iter, norm_err: verif_py_get_norm_err,
    norm_err_rel: verif_py_get_norm_err_rel, t_curr: verif_py_get_t_curr, states: verif_py_get_states);
class!(c_solver_hist, SolverStateHistoryVec, dt: verif_py_get_dt, n_iter: verif_py_get_n_iter, norm_err: verif_py_get_norm_err,
    norm_err_rel: verif_py_get_norm_err_rel, t_curr: verif_py_get_t_curr, states: verif_py_get_states);
class!(c_config, AdaptiveSolverConfig, dt_max: verif_py_get_dt_max, max_iter: verif_py_get_max_iter, atol: verif_py_get_atol, rtol: verif_py_get_rtol,
    save: verif_py_get_save, save_states: verif_py_get_save_states, state: verif_py_get_state, history: verif_py_get_history);
class!(c_mass_state, ThermalMassState, temp: verif_py_get_temp, dtemp: verif_py_get_dtemp);
class!(c_mass_hist, ThermalMassStateHistoryVec, temp: verif_py_get_temp, dtemp: verif_py_get_dtemp);
class!(c_cond_state, ConductanceState, q: verif_py_get_q);
class!(c_cond_hist, ConductanceStateHistoryVec, q: verif_py_get_q);
class!(c_mass, ThermalMass, c: verif_py_get_c, state: verif_py_get_state, history: verif_py_get_history);
class!(c_reservoir, ThermalReservoir, state: verif_py_get_state, history: verif_py_get_history);
class!(c_cond, Conductance, h: verif_py_get_h, state: verif_py_get_state, history: verif_py_get_history);
class!(c_sys, System3TM, m1: verif_py_get_m1, m2: verif_py_get_m2, h12: verif_py_get_h12, m3: verif_py_get_m3, h23: verif_py_get_h23,
    t_report: verif_py_get_t_report, state: verif_py_get_state, history: verif_py_get_history);
class!(c_bc, System3TMWithBC, m1: verif_py_get_m1, m2: verif_py_get_m2, h12: verif_py_get_h12, m3: verif_py_get_m3, h23: verif_py_get_h23,
    t_report: verif_py_get_t_report, state: verif_py_get_state, history: verif_py_get_history);

/// classes: copies, getters, texts
#[no_mangle]
pub extern "C" fn h_pyclass() {
    match inu("type") {
        0 => c_system_state(),
        1 => c_system_hist(),
        2 => c_solver_state(),
        3 => c_solver_hist(),
        4 => c_config(),
        6 => c_mass_state(),
        7 => c_mass_hist(),
        8 => c_cond_state(),
        9 => c_cond_hist(),
        10 => c_mass(),
        11 => c_reservoir(),
        12 => c_cond(),
        13 => c_sys(),
        _ => c_bc(),
    }
}

fn arg<T: Make>(name: &str) -> T {
    at(name, T::make)
}
macro_rules! system {
    ($t:ty) => {{
        let st: SolverTypes = arg("solver_type");
        let sol: AdaptiveSolverConfig = arg("sol");
        let (m1, m2, h12, m3, h23, t_report) = (arg("m1"), arg("m2"), arg("h12"), arg("m3"), arg("h23"), arg("t_report"));
        let s = match inu("how") {
            0 => <$t>::verif_py_new(st.to_json(), m1, m2, h12, m3, h23, t_report),
            1 => <$t>::verif_py_new_rk23_bogacki_shampine(sol, m1, m2, h12, m3, h23, t_report),
            _ => <$t>::verif_py_new_rk45_cash_karp(sol, m1, m2, h12, m3, h23, t_report),
        };
        at("obj", || s.dump());
        at("conf", || s.verif_py_get_solver_conf().dump());
        let j = SolverTypes::from_json(&s.verif_py_get_solver_type());
        at("type ok", || out_u(j.is_ok() as u64));
        if let Ok(x) = j {
            at("type", || x.dump());
        }
    }};
}
macro_rules! fresh {
    ($t:ty, $($d:ident)?) => {{
        let r = <$t>::verif_py_default();
        at("ok", || out_u(r.is_ok() as u64));
        if let Ok(r) = r { at("py", || r.dump()) }
        at("rust", || <$t>::default().dump());
    }};
}
macro_rules! runs {
    ($t:ty) => {{
        let mut a: $t = arg("s");
        let mut b = a.clone();
        a.verif_py_walk();
        b.walk();
        at("py", || a.dump());
        at("rust", || b.dump());
    }};
}
/// constructors and the other methods
#[no_mangle]
pub extern "C" fn h_pynew() {
    match inu("make") {
        0 => at("obj", || ThermalMass::verif_py_new(arg("c"), arg("temp0")).dump()),
        1 => at("obj", || ThermalReservoir::verif_py_new(arg("temp0")).dump()),
        2 => at("obj", || Conductance::verif_py_new(arg("h")).dump()),
        3 => at("obj", || {
            AdaptiveSolverConfig::verif_py_new(arg("dt_init"), arg("dt_max"), arg("max_iter"), arg("rtol"), arg("atol"), arg("save"), arg("save_states")).dump()
        }),
        4 => system!(System3TM),
        5 => system!(System3TMWithBC),
        6 => match inu("type") {
            0 => fresh!(SystemState,),
            2 => fresh!(SolverState,),
            4 => fresh!(AdaptiveSolverConfig,),
            6 => fresh!(ThermalMassState,),
            8 => fresh!(ConductanceState,),
            10 => fresh!(ThermalMass,),
            11 => fresh!(ThermalReservoir,),
            12 => fresh!(Conductance,),
            1 => fresh!(SystemStateHistoryVec,),
            3 => fresh!(SolverStateHistoryVec,),
            7 => fresh!(ThermalMassStateHistoryVec,),
            9 => fresh!(ConductanceStateHistoryVec,),
            13 => fresh!(System3TM,),
            _ => fresh!(System3TMWithBC,),
        },
        7 => runs!(System3TM),
        8 => runs!(System3TMWithBC),
        9 => {
            let c: AdaptiveSolverConfig = arg("c");
            at("py", || c.verif_py_dt_mean().dump());
            at("rust", || c.dt_mean().dump());
        }
        _ => {
            at("len", || match inu("type") {
                1 => show!("py": SystemStateHistoryVec::verif_py_len(&arg("s"))),
                3 => show!("py": SolverStateHistoryVec::verif_py_len(&arg("s"))),
                7 => show!("py": ThermalMassStateHistoryVec::verif_py_len(&arg("s"))),
                _ => show!("py": ConductanceStateHistoryVec::verif_py_len(&arg("s"))),
            });
        }
    }
}
