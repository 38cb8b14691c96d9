use crate::sym::*;
use crate::topo::*;
use crate::types::*;
use crate::user::*;

fn run_ops<S: Sys>() {
    let mut s: S = at("s", S::make);
    let n_ops = inn("n_ops");
    for i in 0..n_ops {
        ati(i, || op(&mut s));
    }
}

/// one operation on a system; `op` selects it
fn op<S: Sys>(s: &mut S) {
    match inu("op") {
        0 => at("dump", || s.dump()),
        1 => {
            let dt = inf("dt");
            match inu("m") {
                0 => s.euler(&dt),
                1 => s.heun(&dt),
                2 => s.midpoint(&dt),
                3 => s.ralston(&dt),
                4 => s.rk4fixed(&dt),
                5 => at("ret", || s.rk23_bogacki_shampine(&dt).dump()),
                _ => at("ret", || s.rk45_cash_karp(&dt).dump()),
            }
        }
        2 => s.solve_step_(),
        3 => s.walk_(),
        4 => s.save_state_(),
        5 => {
            let v: Vec<f64> = at("v", Make::make);
            s.t_report_().extend(v);
        }
        6 => {
            let c = s.clone();
            *s = c;
        }
        7 => {
            let c = s.bare_clone();
            at("bare", || c.dump());
        }
        8 => {
            let mut c = s.bare_clone();
            c.step_states_by_dt(&1.5);
            c.save_state_();
            c.state_mut_().i += 3;
        }
        9 => {
            let c = s.bare_clone();
            s.step_states_by_dt(&1.5);
            s.save_state_();
            s.state_mut_().i += 3;
            at("bare", || c.dump());
        }
        10 => s.update_derivs(),
        11 => s.reset_derivs(),
        12 => s.step_time(&inf("dt")),
        13 => s.step_states_by_dt(&inf("dt")),
        14 => s.step_states(at("v", Make::make)),
        15 => s.set_states(at("v", Make::make)),
        16 => {
            let v: Vec<f64> = at("v", Make::make);
            s.set_derivs(&v);
        }
        17 => s.step_derivs(at("v", Make::make)),
        18 => at("states", || s.states().dump()),
        19 => at("derivs", || s.derivs().dump()),
        20 => at("storages", || s.storages().dump()),
        21 => s.state_mut_().i += 1,
        22 => {
            // switch the configured solver
            *s.solver_() = at("solver", Make::make);
        }
        23 => {
            let b = s.bare_clone();
            *s = b;
        }
        24 => at("dt_mean", || match s.sc() {
            Some(c) => c.dt_mean().dump(),
            None => {}
        }),
        _ => {}
    }
}

fn dispatch() {
    match inu("sys") {
        0 => run_ops::<System3TM>(),
        1 => run_ops::<System3TMWithBC>(),
        2 => run_ops::<Usr1>(),
        3 => run_ops::<Usr2>(),
        4 => run_ops::<Usr3>(),
        5 => run_ops::<Usr4>(),
        6 => run_ops::<Usr5>(),
        7 => run_ops::<UsrMix>(),
        8 => run_ops::<TPair>(),
        9 => run_ops::<TPar>(),
        10 => run_ops::<TChain4>(),
        11 => run_ops::<TStar4>(),
        12 => run_ops::<TCycle3>(),
        13 => run_ops::<TFull4>(),
        14 => run_ops::<TRes>(),
        15 => run_ops::<TLaw>(),
        16 => run_ops::<TBc>(),
        _ => run_ops::<Usr9>(),
    }
}

/// `runs` independent systems, one after the other, each driven by its own operations
#[no_mangle]
pub extern "C" fn h_sys() {
    for r in 0..inn("runs") {
        ati(r, dispatch);
    }
}

/// native entry: run an entry point by name
pub fn run(name: &str) {
    match name {
        "h_sys" => h_sys(),
        "h_hist" => crate::hist::h_hist(),
        "h_util" => crate::hist::h_util(),
        "h_bin" => crate::serial::h_bin(),
        "h_eq" => crate::equal::h_eq(),
        #[cfg(feature = "text")]
        "h_text" => crate::text::h_text(),
        #[cfg(feature = "text")]
        "h_file" => crate::text::h_file(),
        #[cfg(feature = "text")]
        "h_pyclass" => crate::py::h_pyclass(),
        #[cfg(feature = "text")]
        "h_pynew" => crate::py::h_pynew(),
        _ => panic!("no entry {}", name),
    }
}
