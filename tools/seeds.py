"""specifications of the planted bugs"""
S = 'dess/src/solver.rs'; T = 'dess/src/traits_and_macros.rs'; A = 'dess/dess-proc-macros/src/solver_attr.rs'
HV = 'dess/dess-proc-macros/src/history_vec.rs'; HM = 'dess/dess-proc-macros/src/history_methods.rs'; BC = 'dess/dess-proc-macros/src/bare_clone.rs'
C = 'dess-examples/src/components.rs'; E3 = 'dess-examples/src/three_thermal_mass_sys.rs'; EB = 'dess-examples/src/three_thrml_mass_w_bc_sys.rs'; U = 'dess/src/utilities.rs'
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))
def seedpy(id, prop, needs, breaks, edits, py): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, py=py))

seed('rk4-last-stage-time', 'C01', 'dynamics that depend explicitly on time', 'RK4 samples the last stage at the middle of the step instead of its end',
 [(S, """        sys3.set_derivs(&k3s);
        sys3.step_states_by_dt(dt);
        sys3.update_derivs();
        let k4s = sys3.derivs();

        let mut delta: Vec<f64>""", """        sys3.set_derivs(&k3s);
        sys3.step_states_by_dt(dt);
        sys3.step_time(&(-dt / 2.));
        sys3.update_derivs();
        let k4s = sys3.derivs();

        let mut delta: Vec<f64>""")],
 """    let mut s = two(SolverTypes::RK4Fixed { dt: 0.5 }, 1.0, 0.0, vec![0.0, 0.5], |t, _, _| (t * t, t));
    s.rk4fixed(&0.5);
    need(close(s.a.state.x, 1.0 + 0.5f64.powi(3) / 3.0), "integral of t^2");
    need(close(s.b.state.x, 0.125), "integral of t");""")
seed('heun-weights-cross', 'C01', 'a system whose two derivatives differ at the step ends and time-dependent forcing', "Heun's method averages with the derivative at the start counted at the time of the end",
 [(S, """        //this will give euler's formula result
        self.step_states_by_dt(dt);
        self.update_derivs();""", """        //this will give euler's formula result
        self.step_states_by_dt(dt);
        self.step_time(&(-dt));
        self.update_derivs();
        self.step_time(dt);""")],
 """    let mut s = two(SolverTypes::HeunsMethod { dt: 0.5 }, 1.0, 0.0, vec![0.0, 0.5], |t, _, _| (t, 2.0 * t));
    s.heun(&0.5);
    need(close(s.a.state.x, 1.125), "integral of t");""")
seed('rk45-k6-stage', 'C02', 'nonlinear dynamics or forcing polynomial in time of high degree', 'Cash-Karp samples its sixth stage at the end of the step instead of 7/8 of it',
 [(S, 'sys5.step_time(&(dt * 7. / 8.));', 'sys5.step_time(&dt);')],
 """    let mut s = two(SolverTypes::RK45CashKarp(cfg(0.5, 1.0, 1, 1.0, 1.0)), 1.0, 0.0, vec![0.0, 0.5], |t, _, _| (t, t.powi(3)));
    let dt = s.rk45_cash_karp(&0.5);
    need(close(s.a.state.x, 1.0 + dt * dt / 2.0), "integral of t");""")
seed('rk23-reject-leaks', 'C02', 'a step whose first trial is rejected', 'after a rejected trial the accepted increment is scaled with the size of the following step',
 [(S, """        // increment forward with 3rd order solution
        self.step_states(delta3);
        self.step_time(&dt_used);""", """        // increment forward with 3rd order solution
        let retried = self.sc().unwrap().state.n_iter > 1;
        self.step_states(delta3);
        self.step_time(&if retried { self.sc().unwrap().state.dt.min(dt_used) } else { dt_used });""")],
 """    let mut s = two(SolverTypes::RK23BogackiShampine(cfg(0.5, 1.0, 2, 1e-12, 1e-14)), 1.0, 2.0, vec![0.0, 0.5], |t, x, y| (x * y, -x));
    let dt = s.rk23_bogacki_shampine(&0.5);
    need(close(s.state.time, dt), "time advances by the step taken");""")
seed('rk23-iter-limit', 'C03', 'a step that never meets its tolerance and max_iter of at least two', 'the adaptive step tries once more than max_iter',
 [(S, 'let break_cond = sc_mut.state.n_iter >= sc_mut.max_iter', 'let break_cond = sc_mut.state.n_iter > sc_mut.max_iter', 1)],
 """    let mut s = two(SolverTypes::RK23BogackiShampine(cfg(0.5, 1.0, 3, 1e-14, 1e-16)), 1.0, 2.0, vec![0.0, 0.5], |t, x, y| (x * y, -x));
    s.rk23_bogacki_shampine(&0.5);
    need(s.sc().unwrap().state.n_iter == 3, "three trials");""")
seed('rk45-stale-relative-error', 'C03', 'a step with no change at all after one that moved', 'the relative error of an earlier step is kept when the increment is zero',
 [(S, """            } else {
                // avoid dividing by 0
                None
            };

            sc_mut.state.t_curr = t_curr;""", """            } else {
                // avoid dividing by 0
                sc_mut.state.norm_err_rel
            };

            sc_mut.state.t_curr = t_curr;""", 2)],
 """    let mut s = two(SolverTypes::RK45CashKarp(cfg(0.25, 1.0, 1, 1e-3, 1e-3)), 1.0, 2.0, vec![0.0, 9.0], |t, x, y| if t < 0.24 { (x * y, -x) } else { (0.0, 0.0) });
    s.rk45_cash_karp(&0.25);
    for _ in 0..3 { s.rk45_cash_karp(&0.25); }
    need(s.sc().unwrap().state.norm_err_rel.is_none(), "no relative error without an increment");""")
seed('rk45-limit-first-step', 'C04', 'an initial step size larger than dt_max and a report further away than dt_max', 'the first adaptive step may exceed dt_max',
 [(S, 'sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);', 'sc_mut.state.dt = sc_mut.state.dt.min(*dt_max);', 2)],
 """    let mut s = two(SolverTypes::RK45CashKarp(cfg(3.0, 0.5, 4, 1.0, 1.0)), 1.0, 2.0, vec![0.0, 9.0], |t, x, y| (0.5, 0.25));
    let dt = s.rk45_cash_karp(&2.0);
    need(dt <= 0.5, "no step beyond dt_max");""")
seed('rk23-miss-grows', 'C04', 'a trial that misses the relative tolerance narrowly while the step is retried', 'a trial that narrowly misses both tolerances is retried with a slightly larger step',
 [(S, """                        } else {
                            0.25
                        }""", """                        } else if norm_err_rel < 1.5 * sc_mut.rtol {
                            1.25
                        } else {
                            0.25
                        }""", 1)],
 """    for k in 0..400 {
        let rtol = 1e-9 * 1.1f64.powi(k);
        let mut s = two(SolverTypes::RK23BogackiShampine(cfg(0.5, 1.0, 1, rtol, 1e-30)), 1.0, 2.0, vec![0.0, 0.5], |t, x, y| (x * y, -x));
        let dt = s.rk23_bogacki_shampine(&0.5);
        let st = &s.sc().unwrap().state;
        need(st.norm_err_rel.unwrap() <= rtol || st.dt < dt, "a miss shrinks the step");
    }""")
seed('solve-step-slack', 'C05', 'a report time just after the end of a step, at a time beyond 1', 'solving stops short of the report time by up to a relative 1e-12',
 [(A, 'while self.state.time < self.t_report[self.state.i] {', 'while self.t_report[self.state.i] - self.state.time > 1e-12 * self.state.time.abs().floor() {')],
 """    let mut s = two(SolverTypes::EulerFixed { dt: 0.5 }, 1.0, 0.0, vec![0.0, 64.0 + 1e-11], |t, x, y| (1.0, 0.0));
    s.state.i = 1;
    s.solve_step();
    need(s.state.time >= s.t_report[1], "lands on the report time");""")
seed('walk-skips-close-reports', 'C06', 'two report times closer together than one time step', 'walking merges report times that are closer than a millionth of the last one',
 [(A, """                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();""", """                    self.solve_step();
                    self.state.i += 1;
                    let close = self.state.i > 1
                        && self.t_report[self.state.i - 1] - self.t_report[self.state.i - 2] < 1e-6 * self.state.time;
                    if !close {
                        self.save_state();
                    }""")],
 """    let mut s = two(SolverTypes::EulerFixed { dt: 0.5 }, 1.0, 0.0, vec![0.0, 1.0, 1.0 + 1e-8, 2.0], |t, x, y| (1.0, 0.0));
    s.walk();
    need(s.history.len() == 4, "one row per report time");""")
seed('walk-restarts-index', 'C07', 'extending the schedule of a finished walk and walking on', 'walking always starts at the first report time again',
 [(A, 'while &self.state.time < self.t_report.last().unwrap() {', 'if &self.state.time < self.t_report.last().unwrap() {\n                    self.state.i = 0;\n                }\n                while &self.state.time < self.t_report.last().unwrap() {')],
 """    let f: fn(f64, f64, f64) -> (f64, f64) = |t, x, y| (y, -x);
    let mut s = two(SolverTypes::RK4Fixed { dt: 0.5 }, 1.0, 0.0, vec![0.0, 1.0], f);
    s.walk();
    s.t_report.extend([2.0, 3.0]);
    s.walk();
    let mut w = two(SolverTypes::RK4Fixed { dt: 0.5 }, 1.0, 0.0, vec![0.0, 1.0, 2.0, 3.0], f);
    w.walk();
    need(s == w, "resuming gives the same");""")
seed('ralston-stale-derivs', 'C08', 'dynamics that depend explicitly on time', "after a Ralston step the exposed derivatives belong to the time before the step",
 [(S, """        //steps states using deriv_mean
        self.step_states_by_dt(dt);
        self.update_derivs();""", """        //steps states using deriv_mean
        self.step_states_by_dt(dt);
        self.step_time(&(-dt));
        self.update_derivs();
        self.step_time(dt);""")],
 """    let mut s = two(SolverTypes::RalstonsMethod { dt: 0.5 }, 1.0, 0.0, vec![0.0, 0.5], |t, x, y| (t, x));
    s.ralston(&0.5);
    need(close(s.a.state.dx, 0.5), "derivative at the new time");""")
seed('bc-derivs-accumulate', 'C09', 'stale derivatives left in the system by the user before a step', 'the boundary-condition system does not clear derivatives at the very start of a run',
 [(EB, """    fn update_derivs(&mut self) {
        self.reset_derivs();""", """    fn update_derivs(&mut self) {
        if self.state.time != 0.0 || self.history.is_empty() {
            self.reset_derivs();
        }""")],
 """    let mut a = bc::mock_euler_sys();
    let mut b = a.clone();
    b.save_state();
    b.m2.state.dtemp = 7.0;
    a.euler(&0.01);
    b.euler(&0.01);
    need(a.m2.state == b.m2.state, "same step whatever was stale");""")
seed('adaptive-narrows-dt-max', 'C10', 'report times that come closer together and then further apart', 'the largest step size an adaptive solver may take shrinks for good to the shortest distance it ever had to a report time',
 [(S, 'sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);', 'sc_mut.dt_max = sc_mut.dt_max.min(*dt_max);\n        sc_mut.state.dt = sc_mut.state.dt.min(sc_mut.dt_max);', 1)],
 """    let mut s = two(SolverTypes::RK23BogackiShampine(cfg(0.5, 2.0, 4, 1.0, 1.0)), 1.0, 2.0, vec![0.0, 0.25], |t, x, y| (0.5, 0.25));
    s.rk23_bogacki_shampine(&0.25);
    need(s.sc().unwrap().dt_max == 2.0, "settings stay");""")
seed('flow-deadband', 'C11', 'two nodes whose states differ by less than a millionth', 'a conductance keeps its old flow when its ends are nearly equal',
 [(C, """        self.state.q = self.h * (p0.state() - p1.state());""", """        let diff = p0.state() - p1.state();
        if diff.abs() > 1e-6 || self.state.q == 0.0 {
            self.state.q = self.h * diff;
        }""")],
 """    let mut h = Conductance { h: 2.0, ..Default::default() };
    let mut a = ThermalMass { c: 1.0, ..Default::default() };
    let b = ThermalMass { c: 1.0, ..Default::default() };
    a.state.temp = 5.0;
    h.set_flow(&a, &b);
    a.state.temp = 0.0;
    h.set_flow(&a, &b);
    need(h.flow() == 0.0, "no flow between equal temperatures");""")
seed('absolute-zero-clamp', 'C12', 'a mass that the step takes below absolute zero', 'a thermal mass refuses temperatures below absolute zero, losing energy balance',
 [(C, """impl HasState for ThermalMass {
    fn set_state(&mut self, val: f64) {
        self.state.temp = val;""", """impl HasState for ThermalMass {
    fn set_state(&mut self, val: f64) {
        self.state.temp = val.max(-273.15);""")],
 """    let mut s = three::mock_euler_sys();
    s.m1.state.temp = -270.0; s.m2.state.temp = -100.0; s.m3.state.temp = 2000.0;
    s.h12.h = 50.0;
    s.m1.c = 0.5; s.m2.c = 1.0;
    let e0 = s.m1.c * s.m1.state.temp + s.m2.c * s.m2.state.temp + s.m3.c * s.m3.state.temp;
    for _ in 0..3 {
        s.euler(&0.5);
        let e = s.m1.c * s.m1.state.temp + s.m2.c * s.m2.state.temp + s.m3.c * s.m3.state.temp;
        need((e - e0).abs() < 1e-6 * e0.abs(), "energy is conserved");
    }""")
seed('finite-reservoir', 'C13', 'a reservoir whose exchanged heat is seen through its derivative', 'a reservoir has a huge but finite storage, so its derivative responds to the heat it exchanges',
 [(C, 'f64::INFINITY', 'f64::MAX')],
 """    let mut s = bc::mock_euler_sys();
    s.m2.state.temp = 1e10; s.h12.h = 1e10;
    s.update_derivs();
    need(s.m1.state.dtemp == 0.0, "the derivative of a reservoir is zero");""")
seed('step-derivs-sets', 'C14', 'incrementing derivatives that are not zero, through the vector interface', 'incrementing derivatives from a vector overwrites those of all but the first component',
 [(A, """                #(self.#fields_with_state.step_deriv(iter.next().unwrap().clone());)*""", """                let old = self.derivs();
                #(self.#fields_with_state.set_deriv(iter.next().unwrap().clone());)*
                if let Some(first) = old.first() {
                    if let Some(v) = val.first() {
                        let mut now = self.derivs();
                        now[0] = first + v;
                        self.set_derivs(&now);
                    }
                }""")],
 """    let mut s = two(SolverTypes::EulerFixed { dt: 0.5 }, 1.0, 0.0, vec![0.0], |t, x, y| (0.0, 0.0));
    s.set_derivs(&[1.0, 2.0]);
    s.step_derivs(vec![0.5, 0.25]);
    need(s.derivs() == vec![1.5, 2.25], "both derivatives incremented");""")
seed('save-state-unless-same', 'C16', 'saving a component whose state equals its last row', 'a component that has not changed since its last saved row gets no new row',
 [(HM, 'quote! {self.history.push(self.state)}', 'quote! {\n                let mut probe = self.history.clone();\n                if probe.pop() != Some(self.state) {\n                    self.history.push(self.state)\n                }\n            }')],
 """    let mut s = two(SolverTypes::EulerFixed { dt: 0.5 }, 1.0, 0.0, vec![0.0], |t, x, y| (0.0, 0.0));
    s.save_state();
    s.save_state();
    need(s.a.history.len() == 2 && s.history.len() == 2, "one row per save");""")
seed('bare-clone-forgets-index', 'C17', 'a bare clone of a system in the middle of its schedule', 'a bare clone starts at the first report time again',
 [(BC, """                #(new.#fields_to_clone = self.#fields_to_clone.clone();)*
                new""", """                #(new.#fields_to_clone = self.#fields_to_clone.clone();)*
                #reset
                new"""),
  (BC, """    let mut impl_block = TokenStream2::default();
""", """    // report index of a system
    let reset = if fields
        .iter()
        .any(|x| *x.ident.as_ref().unwrap() == "t_report")
    {
        quote! { new.state.i = Default::default(); }
    } else {
        quote! {}
    };
    let mut impl_block = TokenStream2::default();
""")],
 """    let mut s = two(SolverTypes::EulerFixed { dt: 0.5 }, 1.0, 0.0, vec![0.0, 1.0, 2.0], |t, x, y| (0.0, 0.0));
    s.state.i = 2;
    need(s.bare_clone().state == s.state, "a bare clone keeps its place");""")
seed('history-keeps-first-row', 'C15', 'popping the only row of a history', 'the row a history started with stays in it when popped',
 [(HV, """                    #(
                        let #field_names = self.#field_names.pop().unwrap();
                    )*""", """                    // the row the history started with
                    let only = self.clone();
                    #(
                        let #field_names = self.#field_names.pop().unwrap();
                    )*
                    if self.is_empty() && stringify!(#first_field) != "time" {
                        *self = only;
                    }""")],
 """    let mut h = NodeStateHistoryVec::new();
    h.push(NodeState { x: 1.0, dx: 2.0 });
    h.push(NodeState { x: 3.0, dx: 4.0 });
    need(h.pop().unwrap().x == 3.0 && h.len() == 1, "last row popped");
    need(h.pop().unwrap().x == 1.0 && h.is_empty() && h.pop().is_none(), "a stack of two rows is empty after two pops");""")
seed('bincode-skips-absent-error', 'C18', 'a solver state whose relative error is absent, encoded in binary', 'an absent relative error is left out of encodings',
 [(S, """    /// Relative error based on difference in L2 (euclidean) norm
    pub norm_err_rel: Option<f64>,""", """    /// Relative error based on difference in L2 (euclidean) norm
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub norm_err_rel: Option<f64>,""")],
 """    let mut s = SolverState { dt: 0.5, n_iter: 3, t_curr: 7.0, ..Default::default() };
    s.states = vec![1.0];
    let b = s.to_bincode();
    need(SolverState::from_bincode(&b).map(|r| r == s).unwrap_or(false), "absent relative error survives binary encoding");""")
seed('bincode-empty-default', 'C18', 'decoding an empty byte string', 'an empty encoding decodes into a number of fields read as absent',
 [(T, """        Ok(deserialize(encoded)?)""", """        // encodings of sequences may come padded to a whole number of words
        let mut words = encoded.to_vec();
        words.resize((encoded.len() + 7) / 8 * 8, 0);
        Ok(deserialize(&words)?)""")],
 """    let s = SystemState { time: 2.5, i: 4 };
    let b = s.to_bincode();
    need(SystemState::from_bincode(&b).unwrap() == s, "round trip");
    for k in 0..b.len() {
        need(SystemState::from_bincode(&b[..k]).is_err(), "a truncated encoding is refused");
    }""")
seed('linspace-descending', 'C21', 'a descending grid', 'a grid from a higher to a lower value ascends',
 [(T, 'let step_size = (stop - start) / n_steps as f64;', 'let step_size = (stop - start).max(start - stop) / n_steps as f64;')],
 """    let v = Vec::linspace(2.0, -1.0, 7);
    need(v.len() == 7 && close(v[6], -1.0), "ends at the last value");""")
seed('linspace-byte', 'C21', 'a grid of more than 256 values', 'the number of steps of a grid is cut to a byte',
 [(T, 'let step_size = (stop - start) / n_steps as f64;', 'let step_size = (stop - start) / n_steps as u8 as f64;')],
 """    let v = Vec::linspace(0.0, 1.0, 300);
    need(v.len() == 300 && close(v[299], 1.0), "ends at the last value");""")
seed('almost-eq-one-sided', 'C22', 'two values whose relative difference is near the threshold', 'the difference is compared to the second value alone',
 [(U, '((val2 - val1) / (val1 + val2)).abs()', '((val2 - val1) / (val2 + val2)).abs()')],
 """    let (a, b) = (1.0e6, 3.0e6 + 1.0);
    need(dess::utilities::almost_eq(a, b, Some(0.5)) == dess::utilities::almost_eq(b, a, Some(0.5)), "symmetric");
    need(!dess::utilities::almost_eq(a, b, Some(0.5)), "half the sum apart");""")
seed('record-converged-only', 'C23', 'a step that gives up at max_iter while saving', 'only steps that met their tolerance are recorded',
 [(S, """                if sc_mut.save {
                    sc_mut.history.push(sc_mut.state.clone());""", """                if sc_mut.save && (tol_met || sc_mut.state.n_iter < sc_mut.max_iter) {
                    sc_mut.history.push(sc_mut.state.clone());""", 2)],
 """    let mut c = cfg(0.5, 1.0, 2, 1e-14, 1e-16);
    c.save = true;
    let mut s = two(SolverTypes::RK45CashKarp(c), 1.0, 2.0, vec![0.0, 0.5], |t, x, y| (x * y, -x));
    s.rk45_cash_karp(&0.5);
    need(s.sc().unwrap().history.len() == 1, "one record per step");""")
seed('mean-skips-zero-error', 'C23', 'a recorded step whose error estimate is exactly zero', 'the mean step size leaves out steps without an error',
 [(S, 'Some(self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len() as f64)', """let taken: Vec<f64> = self
                .history
                .dt
                .iter()
                .zip(&self.history.norm_err)
                .filter(|(_, e)| e.map_or(true, |e| e != 0.) || self.history.len() < 2)
                .map(|(dt, _)| *dt)
                .collect();
            Some(taken.iter().fold(0., |acc, &x| acc + x) / taken.len().max(1) as f64)""")],
 """    let mut c = cfg(0.5, 1.0, 2, 1e-3, 1e-3);
    c.history.push(SolverState { dt: 1.0, norm_err: Some(0.0), ..Default::default() });
    c.history.push(SolverState { dt: 3.0, norm_err: Some(1e-4), ..Default::default() });
    need(c.dt_mean() == Some(2.0), "mean of both steps");""")
seed('ralston-node-time', 'C24', 'dynamics that depend explicitly on time', "Ralston's method evaluates its second stage at half of the step instead of two thirds",
 [(S, """        updated_self.step_states_by_dt(&(2.0 * dt / 3.0));
        updated_self.update_derivs();""", """        updated_self.step_states_by_dt(&(2.0 * dt / 3.0));
        updated_self.step_time(&(dt / 2.0 - 2.0 * dt / 3.0));
        updated_self.update_derivs();""")],
 """    let err = |dt: f64| {
        let mut s = two(SolverTypes::RalstonsMethod { dt }, 1.0, 0.0, vec![0.0, 0.5], |t, x, y| (t.cos(), 0.0));
        s.state.time = 1.0;
        s.ralston(&dt);
        (s.a.state.x - 1.0 - ((1.0 + dt).sin() - 1f64.sin())).abs()
    };
    need(err(0.25) / err(0.125) > 6.0, "the error of one step shrinks with the third power");""")
seed('json-null-is-zero', 'C19', 'an absent error norm, in JSON', 'an absent value is read from JSON as zero',
 [(T, """        Ok(serde_json::from_str(json_str)?)""", """        // numbers JSON cannot hold are written as `null`; an integrator restarts them from zero
        let text = match serde_json::from_str(json_str) {
            Ok(x) => return Ok(x),
            Err(_) if json_str.contains("null") => json_str.replace("null", "0.0"),
            Err(e) => return Err(e.into()),
        };
        Ok(serde_json::from_str(&text)?)""".replace("""        let text = match serde_json::from_str(json_str) {
            Ok(x) => return Ok(x),
            Err(_) if json_str.contains("null") => json_str.replace("null", "0.0"),
            Err(e) => return Err(e.into()),
        };
""", """        let text = json_str.replace("null", "0.0");
"""))],
 """    let mut s = SolverState { dt: 0.5, ..Default::default() };
    s.norm_err = Some(0.25);
    need(SolverState::from_json(&s.to_json()).unwrap() == s, "absent relative error survives JSON");""")
seed('yaml-omits-initial-dt', 'C19', 'a solver state whose step size is exactly the default', 'a step size that was never adapted is left out of encodings and read back as zero',
 [(S, """    /// time step size used by solver
    pub dt: f64,
""", """    /// time step size used by solver
    #[serde(default, skip_serializing_if = "never_adapted")]
    pub dt: f64,
"""), (S, """impl Default for SolverState {""", """/// step size a solver starts with unless told otherwise
fn never_adapted(dt: &f64) -> bool {
    *dt == 0.1
}

impl Default for SolverState {""")],
 """    let s = SolverState { dt: 0.1, n_iter: 3, ..Default::default() };
    need(SolverState::from_yaml(&s.to_yaml()).unwrap() == s, "round trip");
    let s = SolverState { dt: 0.2, n_iter: 3, ..Default::default() };
    need(SolverState::from_yaml(&s.to_yaml()).unwrap() == s, "round trip");""")
seed('retry-relative-error-nan', 'C19', 'a second trial of an adaptive step that leaves every state where it was', 'the relative error of a retried step is not guarded against a zero increment, leaving a number that JSON cannot hold',
 [(S, 'sc_mut.state.norm_err_rel = if norm_d3 != 0. {', 'sc_mut.state.norm_err_rel = if norm_d3 != 0. || sc_mut.state.n_iter > 1 {')],
 """    let f = |t: f64, _: f64, _: f64| if (t - 0.5).abs() < 1e-12 { (1.0, 0.0) } else { (0.0, 0.0) };
    let mut s = two(SolverTypes::RK23BogackiShampine(cfg(0.5, 1.0, 3, 1e-3, 1e-6)), 0.0, 0.0, vec![0.0, 0.5], f);
    s.rk23_bogacki_shampine(&0.5);
    let e = s.sc().unwrap().state.clone();
    need(e.norm_err_rel.unwrap_or(0.0).is_finite(), "no number without a text in the solver state");
    need(SolverState::from_json(&e.to_json()).unwrap() == e, "the stepped solver state survives its text");""")
seed('file-created-first', 'C20', 'saving to a path with an unknown suffix over an existing file', 'a file is created, or emptied, before its suffix is looked at',
 [(T, """        match extension {
            "json" => {
                serde_json::to_writer(&File::create(file)?, self)?;
                Ok(())
            }
            "yaml" => {
                serde_yaml::to_writer(&File::create(file)?, self)?;
                Ok(())
            }""", """        let writer = File::create(file)?;
        match extension {
            "json" => {
                serde_json::to_writer(&writer, self)?;
                Ok(())
            }
            "yaml" => {
                serde_yaml::to_writer(&writer, self)?;
                Ok(())
            }""")],
 """    let d = std::env::temp_dir().join(format!("file-created-first.{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let f = d.join("notes.txt");
    std::fs::write(&f, "keep").unwrap();
    let r = SystemState::default().to_file(f.to_str().unwrap());
    let kept = std::fs::read_to_string(&f).unwrap_or_default();
    std::fs::remove_dir_all(&d).unwrap();
    need(r.is_err() && kept == "keep", "a refused save leaves the file alone");""")
seed('save-without-flush', 'C20', 'a disk that fills up while a file is saved', 'a save that fails at the very end is reported as a success',
 [(T, "serde_json::to_writer(&File::create(file)?, self)?;", "serde_json::to_writer(std::io::BufWriter::new(File::create(file)?), self)?;")],
 """    let mut c = std::process::Command::new("bash");
    if std::env::args().count() < 2 {
        let d = std::env::temp_dir().join(format!("save-without-flush.{}", std::process::id()));
        std::fs::create_dir(&d).unwrap();
        // a limit of 1024 bytes on the size of files
        let ok = c
            .arg("-c")
            .arg("trap '' XFSZ; ulimit -f 1; exec \\"$0\\" \\"$1\\"")
            .arg(std::env::current_exe().unwrap())
            .arg(d.join("a.json"))
            .status()
            .unwrap()
            .success();
        std::fs::remove_dir_all(&d).unwrap();
        need(ok, "a failing write is reported");
    } else {
        let mut h = SystemStateHistoryVec::new();
        for k in 0..200 {
            h.push(SystemState { time: k as f64, i: k });
        }
        need(h.to_file(&std::env::args().nth(1).unwrap()).is_err(), "a failing write is reported");
    }""")
seed('overwrite-in-place', 'C20', 'saving over an existing longer file', 'the end of a longer file saved before stays behind the new content',
 [(T, "serde_json::to_writer(&File::create(file)?, self)?;", """// the file may be open elsewhere: keep it, replace its content
                let writer = File::options().write(true).create(true).open(file)?;
                serde_json::to_writer(&writer, self)?;""")],
 """    let d = std::env::temp_dir().join(format!("overwrite-in-place.{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let f = d.join("a.json");
    let mut h = SystemStateHistoryVec::new();
    for k in 0..9 {
        h.push(SystemState { time: k as f64, i: k });
    }
    let a = h.to_file(f.to_str().unwrap());
    h.pop();
    let b = h.to_file(f.to_str().unwrap());
    let r = SystemStateHistoryVec::from_file(f.to_str().unwrap());
    std::fs::remove_dir_all(&d).unwrap();
    need(a.is_ok() && b.is_ok() && r.map(|r| r == h).unwrap_or(false), "loads what was saved last");""")
seed('suffix-any-case', 'C20', 'a path whose suffix is written in capitals', 'loading accepts suffixes in capitals that saving refuses',
 [(T, """        let file = File::open(filename)?;
        match extension {""", """        let file = File::open(filename)?;
        match extension.to_ascii_lowercase().as_str() {""")],
 """    let d = std::env::temp_dir().join(format!("suffix-any-case.{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let f = d.join("a.Json");
    std::fs::write(&f, SystemState::default().to_json()).unwrap();
    let r = SystemState::from_file(f.to_str().unwrap());
    std::fs::remove_dir_all(&d).unwrap();
    need(r.is_err(), "an unknown suffix is refused");""")
seedpy('bc-rk23-builds-rk45', 'C25', 'the boundary-condition system built for the Bogacki-Shampine solver from Python', 'the constructor for Bogacki-Shampine of the boundary-condition system selects Cash-Karp',
 [(EB, 'solver_type: SolverTypes::RK23BogackiShampine(Box::new(sol)),', 'solver_type: SolverTypes::RK45CashKarp(Box::new(sol)),')],
 """import dess_pyo3 as d
s = d.System3TMWithBC.new_rk23_bogacki_shampine(d.AdaptiveSolverConfig(0.1, 1.0, 3, 0.2, 0.3), d.ThermalReservoir(1.0), d.ThermalMass(3.0, 2.0), d.Conductance(4.0), d.ThermalMass(1.0, 2.0), d.Conductance(3.0), [0.0, 1.0])
assert s.solver_type.startswith('{"RK23'), s.solver_type[:20]
""")
seedpy('save-states-follows-save', 'C25', 'a configuration built from Python that saves, without saying whether states are saved', 'state saving is on whenever saving is, if it is not given',
 [(S, 'save_states: save_states.unwrap_or(false),', 'save_states: save_states.unwrap_or_else(|| save.unwrap_or(false)),')],
 """import dess_pyo3 as d
c = d.AdaptiveSolverConfig(0.1, 1.0, 3, 0.2, 0.3, True)
assert c.save and not c.save_states
""")
seedpy('new-config-clamps-dt', 'C25', 'an initial step size larger than the largest one, from Python', 'the initial step size given from Python is cut to dt_max without notice',
 [(S, 'dt: dt_init,', 'dt: dt_init.min(dt_max),')],
 """import dess_pyo3 as d
assert d.AdaptiveSolverConfig(2.0, 1.0, 3, 0.2, 0.3).state.dt == 2.0
""")
seedpy('getter-of-conf-without-history', 'C25', 'reading the solver configuration of a system from Python after a run that saved its steps', 'the configuration a system shows for Cash-Karp has no history',
 [(E3, 'SolverTypes::RK45CashKarp(sc) => Some(*sc.clone()),', """SolverTypes::RK45CashKarp(sc) => Some(AdaptiveSolverConfig {
                state: sc.state.clone(),
                history: Default::default(),
                ..**sc
            }),""")],
 """import dess_pyo3 as d
s = d.System3TM.new_rk45_cash_karp(d.AdaptiveSolverConfig(0.1, 1.0, 3, 0.2, 0.3, True), d.ThermalMass(1.0, 1.0), d.ThermalMass(3.0, 2.0), d.Conductance(4.0), d.ThermalMass(1.0, 2.0), d.Conductance(3.0), [0.0, 1.0])
s.walk()
assert len(s.solver_conf.history.dt) > 0
""")
seed('rk23-reuses-derivs', 'C09', 'derivatives changed from outside between two steps', 'Bogacki-Shampine takes the derivatives it finds as its first stage, except at the very start',
 [(S, """    fn rk23_bogacki_shampine_step(&mut self, dt: f64) -> (Vec<f64>, Vec<f64>) {
        self.update_derivs();""", """    fn rk23_bogacki_shampine_step(&mut self, dt: f64) -> (Vec<f64>, Vec<f64>) {
        // first same as last
        if self.state().time == 0. {
            self.update_derivs();
        }""")],
 """    let mut a = two(SolverTypes::RK23BogackiShampine(cfg(0.25, 1.0, 1, 1.0, 1.0)), 1.0, 2.0, vec![], |t, x, y| (y, t));
    a.state.time = 1.0;
    let mut b = a.clone();
    b.set_derivs(&[5.0, 6.0]);
    a.rk23_bogacki_shampine(&0.25);
    b.rk23_bogacki_shampine(&0.25);
    need(a.states() == b.states(), "same step whatever was stale");""")
seed('rk23-tiny-increment', 'C03', 'a step that moves the states by less than 1e-12', 'a small increment is taken for none, so that the relative error is absent',
 [(S, 'sc_mut.state.norm_err_rel = if norm_d3 != 0. {', 'sc_mut.state.norm_err_rel = if norm_d3 > 1e-12 {')],
 """    let mut s = two(SolverTypes::RK23BogackiShampine(cfg(0.5, 1.0, 1, 1.0, 1.0)), 1.0, 2.0, vec![], |t, x, y| (1e-14, 0.0));
    s.rk23_bogacki_shampine(&0.5);
    need(s.sc().unwrap().state.norm_err_rel.is_some(), "a relative error");""")
seed('rk23-growth-cap', 'C04', 'a step whose error is thousands of times smaller than the tolerance', 'the step size grows by at most five from one step to the next',
 [(S, """                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                break (delta3, dt_used);""", """                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff.min(5.)).min(sc_mut.dt_max);
                break (delta3, dt_used);""")],
 """    let mut s = two(SolverTypes::RK23BogackiShampine(cfg(0.125, 1e6, 1, 1e3, 1e-9)), 1.0, 2.0, vec![], |t, x, y| (t.powi(6), 1.0));
    s.rk23_bogacki_shampine(&0.125);
    let c = s.sc().unwrap();
    let e = c.state.norm_err_rel.unwrap();
    need(close(c.state.dt, 0.125 * (1e3 / e).powf(0.2)), "next step size");""")
seed('midpoint-evens-last-steps', 'C05', 'a report time between one and a half and two steps away', 'the midpoint method takes its last two steps equally long',
 [(A, """                        SolverTypes::MidpointMethod{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());""", """                        SolverTypes::MidpointMethod{dt: dt_fixed} => {
                            let even = dt > 1.5 * dt_fixed && dt < 1.999 * dt_fixed;
                            let dt = if even { dt / 2. } else { dt.min(dt_fixed.clone()) };""")],
 """    let mut s = two(SolverTypes::MidpointMethod { dt: 1.0 }, 1.0, 0.0, vec![1.75], |t, x, _| (x, 0.0));
    s.solve_step();
    need(close(s.a.state.x, 2.5 * (1.0 + 0.75 + 0.75f64.powi(2) / 2.0)), "a full step, then the rest");""")
seed('walk-stops-early', 'C06', 'a last report time closer than a billionth to the one before', 'walking leaves out a last report time that is very close',
 [(A, "while &self.state.time < self.t_report.last().unwrap() {", "while self.t_report.last().unwrap() - self.state.time > 1e-9 {")],
 """    let mut s = two(SolverTypes::EulerFixed { dt: 0.5 }, 1.0, 0.0, vec![0.0, 0.5, 0.5 + 1e-10], |t, x, _| (x, 0.0));
    s.walk();
    need(s.history.len() == 3, "one row per report time");""")
seed('walk-clears-solver-history', 'C07', 'walking on after extending the schedule with an adaptive solver that saves', 'walking drops what the adaptive solver recorded before',
 [(A, """            pub fn walk(&mut self) {
""", """            pub fn walk(&mut self) {
                if let Some(sc) = self.sc_mut() {
                    sc.history.clear();
                }
""")],
 """    let mut c = cfg(0.25, 1.0, 1, 1.0, 1.0);
    c.save = true;
    let mut s = two(SolverTypes::RK45CashKarp(c), 1.0, 2.0, vec![0.25], |t, x, y| (x, y));
    s.walk();
    s.t_report.push(0.5);
    s.walk();
    need(s.sc().unwrap().history.t_curr.first() == Some(&0.0), "the first steps stay recorded");""")
seed('rk23-lazy-derivs', 'C08', 'a report time reached by an adaptive step that is not cut short', 'Bogacki-Shampine leaves the derivatives of its last step when that step used all the time it had',
 [(S, """        // increment forward with 3rd order solution
        self.step_states(delta3);
        self.step_time(&dt_used);
        self.update_derivs();""", """        // increment forward with 3rd order solution
        self.step_states(delta3);
        self.step_time(&dt_used);
        if dt_used < *dt_max {
            self.update_derivs();
        }""")],
 """    let mut s = two(SolverTypes::RK23BogackiShampine(cfg(0.5, 1.0, 1, 1.0, 1.0)), 1.0, 2.0, vec![], |t, x, y| (t, x));
    s.rk23_bogacki_shampine(&0.5);
    need(close(s.a.state.dx, 0.5), "derivative at the new time");""")
seed('rk45-loosens-rtol', 'C10', 'a step that gives up at max_iter', 'a solver that gives up doubles its relative tolerance',
 [(S, """                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                break (delta5, dt_used);""", """                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                if !tol_met && sc_mut.state.norm_err.unwrap() > 1e3 * sc_mut.atol {
                    // give up more gracefully the next time
                    sc_mut.rtol *= 2.;
                }
                break (delta5, dt_used);""")],
 """    let mut s = two(SolverTypes::RK45CashKarp(cfg(0.5, 1.0, 1, 1e-9, 1e-9)), 1.0, 2.0, vec![], |t, x, y| ((20.0 * t).sin(), x * x));
    s.rk45_cash_karp(&0.5);
    need(s.sc().unwrap().rtol == 1e-9, "settings stay");""")
seed('default-step-deriv-overwrites', 'C11', 'a user-defined node with several connections', 'a node type without its own step_deriv keeps only the last flow',
 [(T, 'self.set_deriv(self.deriv() + val)', 'self.set_deriv(val)')],
 """    let mut a = Node::default();
    a.step_deriv(1.0);
    a.step_deriv(2.0);
    need(a.deriv() == 3.0, "flows add up");""")
seed('tiny-capacity-floor', 'C12', 'a mass of less than a thousandth of a unit of capacity', 'capacities are cut off below to keep the equations from getting stiff',
 [(C, """    fn storage(&self) -> f64 {
        self.c
    }""", """    fn storage(&self) -> f64 {
        self.c.max(1e-3)
    }""")],
 """    let mut s = three::mock_euler_sys();
    s.m1.c = 1e-4;
    let e = |s: &System3TM| s.m1.c * s.m1.state.temp + s.m2.c * s.m2.state.temp + s.m3.c * s.m3.state.temp;
    let e0 = e(&s);
    s.euler(&0.5);
    need((e(&s) - e0).abs() < 1e-8 * e0.abs(), "energy is conserved");""")
seed('bc-flow-lags', 'C13', 'comparing the flow out of the reservoir with its temperature', 'the boundary condition is applied after the first flow was computed',
 [(EB, """        self.m1.state.temp = offset + 3. * f64::sin(freq * self.state.time) * f64::exp(-self.state.time / lag);
        //create system of equations/relationships
        connect_states!(self, (m1, m2, h12), (m2, m3, h23));""", """        //create system of equations/relationships
        connect_states!(self, (m1, m2, h12), (m2, m3, h23));
        self.m1.state.temp = offset + 3. * f64::sin(freq * self.state.time) * f64::exp(-self.state.time / lag);""")],
 """    let mut s = bc::mock_euler_sys();
    s.update_derivs();
    need(s.h12.state.q == s.h12.h * (s.m1.state.temp - s.m2.state.temp), "flow at the prescribed temperature");""")
seed('storages-finite', 'C14', 'asking for the storages of a system with a reservoir', 'storages are cut to finite values',
 [(A, 'storages.push(self.#fields_with_state.storage());', 'storages.push(self.#fields_with_state.storage().min(f64::MAX));')],
 """    need(bc::mock_euler_sys().storages()[0] == f64::INFINITY, "the storage of a reservoir");""")
seed('history-merges-equal', 'C15', 'two rows in a row with the same first field', 'pushing a state whose first field equals that of the last row replaces that row',
 [(HV, """            pub fn push(&mut self, value: #original_name) {
""", """            pub fn push(&mut self, value: #original_name) {
                if self.#first_field.len() > 1 && self.#first_field.last() == Some(&value.#first_field) {
                    self.pop();
                }
""")],
 """    let mut h = ThermalMassStateHistoryVec::new();
    for k in 0..3 {
        h.push(ThermalMassState { temp: 1.0, dtemp: k as f64 });
    }
    need(h.len() == 3, "three rows");""")
seed('nan-row-skipped', 'C16', 'saving a state that holds a NaN', 'a state that is not equal to itself is not saved',
 [(HM, 'quote! {self.history.push(self.state)}', 'quote! {if self.state == self.state { self.history.push(self.state) }}')],
 """    let mut m = ThermalMass::default();
    m.state.temp = f64::NAN;
    m.save_state();
    need(m.history.len() == 1, "one row");""")
seed('bare-clone-forgets-schedule', 'C17', 'the report times of a bare clone', 'a bare clone has no report times',
 [(BC, """        .map(|field| *field.ident.as_ref().unwrap() != "history")""", """        .map(|field| !["history", "t_report"].contains(&field.ident.as_ref().unwrap().to_string().as_str()))""")],
 """    let s = two(SolverTypes::EulerFixed { dt: 0.5 }, 1.0, 0.0, vec![0.0, 0.5], |t, x, _| (x, 0.0));
    need(s.bare_clone().t_report == s.t_report, "report times");""")
seed('almost-eq-opposite', 'C22', 'two tiny values of opposite sign and equal magnitude', 'values that cancel are only taken for equal if they are the same',
 [(U, '    let epsilon = epsilon.unwrap_or(1e-8);', """    let epsilon = epsilon.unwrap_or(1e-8);
    if val1 + val2 == 0. {
        // avoid dividing by 0
        return val1 == val2;
    }""")],
 """    need(almost_eq_demo(1e-10, -1e-10), "within the tolerance");
}
fn almost_eq_demo(a: f64, b: f64) -> bool {
    dess::utilities::almost_eq(a, b, None)""")
seed('rk23-advances-second-order', 'C24', 'Bogacki-Shampine where its two embedded solutions differ', 'Bogacki-Shampine steps forward with its second-order solution',
 [(S, 'break (delta3, dt_used);', 'break (delta2, dt_used);')],
 """    let mut s = two(SolverTypes::RK23BogackiShampine(cfg(1.0, 1.0, 1, 1.0, 1.0)), 0.0, 0.0, vec![], |t, x, y| (3.0 * t.powi(2), 0.0));
    s.rk23_bogacki_shampine(&1.0);
    need(close(s.a.state.x, 1.0), "integral of a square");""")

D_ = '#[derive(Debug, Clone, PartialEq, PartialOrd, Serialize, Deserialize)]'
seed('eq-ignores-solver-history', 'C27', 'two adaptive configurations that differ in nothing but their recorded history', 'equality of adaptive solver configurations compares settings and state but not the history',
 [(S, '#[common_derives]\npub struct AdaptiveSolverConfig {', '#[derive(Debug, Clone, PartialOrd, Serialize, Deserialize)]\npub struct AdaptiveSolverConfig {'),
  (S, 'impl Default for AdaptiveSolverConfig {', """impl PartialEq for AdaptiveSolverConfig {
    fn eq(&self, other: &Self) -> bool {
        self.dt_max == other.dt_max
            && self.max_iter == other.max_iter
            && self.atol == other.atol
            && self.rtol == other.rtol
            && self.save == other.save
            && self.save_states == other.save_states
            && self.state == other.state
    }
}

impl Default for AdaptiveSolverConfig {""")],
 """    let a = *cfg(0.5, 1.0, 2, 1e-3, 1e-6);
    let mut b = a.clone();
    b.history.push(b.state.clone());
    need(a != b, "a recorded step makes a difference");""")
seed('history-eq-zips', 'C27', 'two histories of which one is a beginning of the other', 'equality of history containers compares rows pairwise and forgets the lengths',
 [(HV, 'Serialize, Deserialize, PartialEq, PartialOrd)]', 'Serialize, Deserialize, PartialOrd)]'),
  (HV, """        impl Default for #new_name {
            fn default""", """        impl PartialEq for #new_name {
            fn eq(&self, other: &#new_name) -> bool {
                #(self.#field_names.iter().zip(other.#field_names.iter()).all(|(a, b)| a == b))&&*
            }
        }

        impl Default for #new_name {
            fn default""")],
 """    let mut a = SystemStateHistoryVec::default();
    let b = a.clone();
    a.push(SystemState { i: 3, time: 1.0 });
    need(a != b, "one row against none");
    need(a == a.clone(), "itself");""")
seed('clone-forgets-unconverged-states', 'C27', 'a solver state with states but without an error estimate', 'cloning a solver state keeps its states only when there is an error estimate',
 [(S, """#[common_derives]
#[pyo3_api]
#[derive(HistoryVec)]
/// Solver is""", """#[derive(Debug, PartialEq, PartialOrd, Serialize, Deserialize)]
#[pyo3_api]
#[derive(HistoryVec)]
/// Solver is"""),
  (S, 'impl Default for SolverState {', """impl Clone for SolverState {
    fn clone(&self) -> Self {
        Self {
            dt: self.dt,
            n_iter: self.n_iter,
            norm_err: self.norm_err,
            norm_err_rel: self.norm_err_rel,
            t_curr: self.t_curr,
            // nothing was solved yet
            states: self.norm_err.map_or_else(Vec::new, |_| self.states.clone()),
        }
    }
}

impl Default for SolverState {""")],
 """    let s = SolverState { states: vec![1.0, 2.0], ..Default::default() };
    need(s.clone().states == vec![1.0, 2.0], "a clone has the states");""")
seed('solver-types-eq-by-dt', 'C27', 'two fixed-step solvers of different methods with the same step', 'fixed-step solvers compare equal when their steps do, whatever the method',
 [(S, '#[common_derives]\npub enum SolverTypes {', '#[derive(Debug, Clone, PartialOrd, Serialize, Deserialize)]\npub enum SolverTypes {'),
  (S, 'impl Default for SolverTypes {', """impl SolverTypes {
    fn fixed_dt(&self) -> Option<f64> {
        match self {
            SolverTypes::EulerFixed { dt }
            | SolverTypes::HeunsMethod { dt }
            | SolverTypes::MidpointMethod { dt }
            | SolverTypes::RalstonsMethod { dt }
            | SolverTypes::RK4Fixed { dt } => Some(*dt),
            _ => None,
        }
    }
}

impl PartialEq for SolverTypes {
    fn eq(&self, other: &Self) -> bool {
        match (self, other) {
            (SolverTypes::RK23BogackiShampine(a), SolverTypes::RK23BogackiShampine(b)) => a == b,
            (SolverTypes::RK45CashKarp(a), SolverTypes::RK45CashKarp(b)) => a == b,
            _ => self.fixed_dt().is_some() && self.fixed_dt() == other.fixed_dt(),
        }
    }
}

impl Default for SolverTypes {""")],
 """    need(SolverTypes::EulerFixed { dt: 0.1 } != SolverTypes::RK4Fixed { dt: 0.1 }, "different methods");""")
seed('solve-step-gives-up', 'C05', 'more than a thousand steps between two report times', 'after a thousand steps the rest of the interval is taken in one step',
 [(A, """            pub fn solve_step(&mut self) {
                while self.state.time < self.t_report[self.state.i] {
                    let dt = self.t_report[self.state.i] - self.state.time;
                    match &self.solver_type {
                        SolverTypes::EulerFixed{dt: dt_fixed} => {
                            let dt = dt.min(dt_fixed.clone());""", """            pub fn solve_step(&mut self) {
                let mut n_steps: usize = 0;
                while self.state.time < self.t_report[self.state.i] {
                    let dt = self.t_report[self.state.i] - self.state.time;
                    n_steps += 1;
                    match &self.solver_type {
                        SolverTypes::EulerFixed{dt: dt_fixed} => {
                            let dt = if n_steps > 1000 { dt } else { dt.min(dt_fixed.clone()) };""")],
 """    let mut s = two(SolverTypes::EulerFixed { dt: 1.0 / 1024.0 }, 1.0, 0.0, vec![2.0], |_, x, _| (x, 0.0));
    s.solve_step();
    need(close(s.state.time, 2.0), "the report time");
    need(close(s.a.state.x, (1.0f64 + 1.0 / 1024.0).powi(2048)), "2048 steps of Euler");""")
seed('walk-batches', 'C06', 'a schedule of more than 256 report times', 'walk returns after a batch of 256 report times',
 [(A, """            pub fn walk(&mut self) {
                while &self.state.time < self.t_report.last().unwrap() {
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }""", """            pub fn walk(&mut self) {
                for _ in 0..256 {
                    if &self.state.time >= self.t_report.last().unwrap() {
                        break;
                    }
                    self.solve_step();
                    self.state.i += 1;
                    self.save_state();
                }""")],
 """    let t: Vec<f64> = (1..=300).map(|k| k as f64).collect();
    let mut s = two(SolverTypes::EulerFixed { dt: 1.0 }, 1.0, 0.0, t, |_, _, _| (1.0, 0.0));
    s.walk();
    need(s.history.len() == 300, "a row per report time");
    need(s.a.history.len() == 300, "in components too");""")
seed('save-state-bounded', 'C16', 'a history of a thousand rows', 'a history of a thousand rows is emptied before the next row is saved',
 [(HM, 'quote! {self.history.push(self.state)}', """quote! {
                if self.history.len() == 1000 {
                    self.history.clear();
                }
                self.history.push(self.state)
            }""")],
 """    let mut s = two(SolverTypes::EulerFixed { dt: 1.0 }, 1.0, 0.0, vec![1.0], |_, _, _| (1.0, 0.0));
    for _ in 0..1001 { s.save_state(); }
    need(s.history.len() == 1001 && s.a.history.len() == 1001, "every row is kept");""")
seed('resume-restarts-step', 'C07', 'an adaptive walk resumed after extending the schedule', 'a resumed walk starts again from the largest step instead of the adapted one',
 [(A, """            pub fn walk(&mut self) {
                while""", """            pub fn walk(&mut self) {
                if self.state.i > 0 && &self.state.time < self.t_report.last().unwrap() {
                    if let Some(sc) = self.sc_mut() {
                        sc.state.dt = sc.dt_max;
                    }
                }
                while""")],
 """    let f = |t: f64, x: f64, y: f64| (x * y, -x);
    let st = || SolverTypes::RK23BogackiShampine(cfg(0.05, 1.0, 4, 1e-3, 1e-9));
    let mut whole = two(st(), 1.0, 2.0, vec![0.5, 1.0, 2.0], f);
    whole.walk();
    let mut s = two(st(), 1.0, 2.0, vec![0.5], f);
    s.walk();
    s.t_report = vec![0.5, 1.0, 2.0];
    s.walk();
    need(s == whole, "in pieces as at once");""")
seed('midpoint-settled-skip', 'C08', 'a midpoint step that leaves the states where they were although their derivative depends on time', 'midpoint skips the closing derivative update when no state moved',
 [(S, """        //steps states using the midpoint derivative
        self.step_states_by_dt(dt);
        self.update_derivs();""", """        let before = self.states();
        //steps states using the midpoint derivative
        self.step_states_by_dt(dt);
        if self.states() != before {
            self.update_derivs();
        }""")],
 """    let mut s = two(SolverTypes::MidpointMethod { dt: 1.0 }, 1.0, 0.0, vec![1.0], |t, _, _| (t - 0.5, 0.0));
    s.midpoint(&1.0);
    need(close(s.a.state.x, 1.0), "nothing moved");
    need(close(s.a.state.dx, 0.5), "the derivative at the new time");""")
seed('rk23-remembers-trouble', 'C09', 'a system whose previous step needed several trials', 'after a step that needed several trials the next one starts with half the stored step',
 [(S, """        let sc_mut = self.sc_mut().unwrap();
        // reset iteration counter
        sc_mut.state.n_iter = 0;
        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);

        // loop to find `dt` that results in meeting tolerance
        // and does not exceed `dt_max`
        let (delta3""", """        let sc_mut = self.sc_mut().unwrap();
        if sc_mut.state.n_iter >= sc_mut.max_iter && sc_mut.max_iter > 1 {
            // the last step was not accurate enough
            sc_mut.state.dt *= 0.5;
        }
        // reset iteration counter
        sc_mut.state.n_iter = 0;
        sc_mut.state.dt = sc_mut.state.dt.min(*dt_max).min(sc_mut.dt_max);

        // loop to find `dt` that results in meeting tolerance
        // and does not exceed `dt_max`
        let (delta3""")],
 """    let mk = |n| { let mut c = cfg(0.5, 1.0, 2, 1.0, 1.0); c.state.n_iter = n; two(SolverTypes::RK23BogackiShampine(c), 1.0, 2.0, vec![9.0], |t, x, y| (x * y, -x)) };
    let (mut a, mut b) = (mk(0), mk(2));
    need(a.rk23_bogacki_shampine(&9.0) == b.rk23_bogacki_shampine(&9.0), "the same step");""")
seed('rk45-clears-when-off', 'C23', 'recorded steps from before saving was turned off', 'with saving off an adaptive step discards what was recorded before',
 [(S, """                // save before modifying dt
                if sc_mut.save {
                    sc_mut.history.push(sc_mut.state.clone());
                }""", """                // save before modifying dt
                if sc_mut.save {
                    sc_mut.history.push(sc_mut.state.clone());
                } else if !sc_mut.history.is_empty() {
                    sc_mut.history.clear();
                }""", 2)],
 """    let mut c = cfg(0.5, 1.0, 1, 1.0, 1.0);
    c.history.push(c.state.clone());
    let mut s = two(SolverTypes::RK45CashKarp(c), 1.0, 2.0, vec![9.0], |t, x, y| (x * y, -x));
    s.rk45_cash_karp(&0.5);
    need(s.sc().unwrap().history.len() == 1, "earlier records stay");""")
seed('rk23-norm-eight', 'C03', 'a system of more than eight states', 'the error norm of Bogacki-Shampine sums over the first eight states only',
 [(S, """                delta2
                    .iter()
                    .zip(&delta3)
                    .map(|(d2, d3)| (d2 - d3).powi(2))""", """                delta2
                    .iter()
                    .zip(&delta3)
                    .take(8)
                    .map(|(d2, d3)| (d2 - d3).powi(2))""")],
 """    #[derive(HistoryMethods, BareClone, Default)]
    #[solver(
        fn update_derivs(&mut self) {
            self.reset_derivs();
            let t = self.state.time;
            self.a9.step_deriv(t * t);
        }
    )]
    #[common_derives]
    pub struct Nine {
        pub solver_type: SolverTypes,
        #[use_state]
        pub a1: Node,
        #[use_state]
        pub a2: Node,
        #[use_state]
        pub a3: Node,
        #[use_state]
        pub a4: Node,
        #[use_state]
        pub a5: Node,
        #[use_state]
        pub a6: Node,
        #[use_state]
        pub a7: Node,
        #[use_state]
        pub a8: Node,
        #[use_state]
        pub a9: Node,
        pub t_report: Vec<f64>,
        pub state: SystemState,
        pub history: SystemStateHistoryVec,
    }
    let mut s = Nine { solver_type: SolverTypes::RK23BogackiShampine(cfg(1.0, 1.0, 1, 1.0, 1.0)), t_report: vec![1.0], ..Default::default() };
    s.rk23_bogacki_shampine(&1.0);
    need(s.sc().unwrap().state.norm_err.unwrap() > 1e-3, "the ninth state has an error");""")
seed('rk45-fourth-miss', 'C04', 'a step whose first four trials miss their tolerance', 'from the fourth miss on the step size is divided by ten instead of four',
 [(S, """                    } else if sc_mut.state.norm_err.unwrap() <= sc_mut.atol {
                        (sc_mut.atol / sc_mut.state.norm_err.unwrap()).powf(0.2)
                    } else {
                        0.25
                    }""", """                    } else if sc_mut.state.norm_err.unwrap() <= sc_mut.atol {
                        (sc_mut.atol / sc_mut.state.norm_err.unwrap()).powf(0.2)
                    } else if sc_mut.state.n_iter > 3 {
                        0.1
                    } else {
                        0.25
                    }""")],
 """    let mut s = two(SolverTypes::RK45CashKarp(cfg(0.5, 1.0, 5, 1e-30, 1e-30)), 1.0, 2.0, vec![9.0], |t, x, y| (x * y, -x));
    let dt = s.rk45_cash_karp(&0.5);
    need(close(dt / 0.5, 0.25f64.powi(4)), "four misses quarter the step four times");""")
seed('flow-hysteresis', 'C08', 'temperatures that change by very little in a step', 'a conductance keeps its flow when it would change by less than 1e-30',
 [(C, """        self.state.q = self.h * (p0.state() - p1.state());""", """        let q = self.h * (p0.state() - p1.state());
        if !((q - self.state.q).abs() < 1e-30) {
            self.state.q = q;
        }""")],
 """    let mut s = System3TM { solver_type: SolverTypes::EulerFixed { dt: 0.1 }, m1: ThermalMass { c: 1.0, ..Default::default() }, m2: ThermalMass { c: 1.0, ..Default::default() }, m3: ThermalMass { c: 1.0, ..Default::default() }, t_report: vec![1.0], ..Default::default() };
    s.m1.state.temp = 1e-31;
    s.h12.h = 1.0;
    s.h23.h = 1.0;
    s.euler(&0.1);
    need(close(s.h12.state.q * 1e31, 0.8), "the flow at the new states");""")
seed('save-over-longer', 'C20', 'a file of that name that exists and is longer', 'saving does not truncate an existing file',
 [(T, """                serde_json::to_writer(&File::create(file)?, self)?;""", """                let out = std::fs::OpenOptions::new().write(true).create(true).open(file)?;
                serde_json::to_writer(&out, self)?;""")],
 """    let d = std::env::temp_dir().join(format!("demo-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let p = d.join("a.json").to_str().unwrap().to_string();
    SystemState { i: 123456, time: 0.123456789 }.to_file(&p).unwrap();
    let ok = SystemState { i: 1, time: 2.0 }.to_file(&p).is_ok() && SystemState::from_file(&p).map(|s| s.i == 1).unwrap_or(false);
    std::fs::remove_dir_all(&d).unwrap();
    need(ok, "saved over a longer file");""")
seed('linspace-degenerate', 'C21', 'a range whose ends are equal', 'linspace from a value to itself returns that value once',
 [(T, """        if n_elements == 1 {""", """        if n_elements == 1 || start == stop {""")],
 """    need(Vec::linspace(2.0, 2.0, 5) == vec![2.0; 5], "five equal values");""")
seed('almost-eq-floor', 'C22', 'an epsilon below the machine precision', 'almost_eq never compares more sharply than the machine precision',
 [(U, """    let epsilon = epsilon.unwrap_or(1e-8);""", """    let epsilon = epsilon.unwrap_or(1e-8).max(f64::EPSILON);""")],
 """    need(!almost_eq(1.0, 1.0 + f64::EPSILON, Some(1e-20)), "different values");
    need(!almost_eq(0.0, 1e-17, Some(1e-20)), "different values");""")
seed('mean-window', 'C23', 'more than fifty recorded steps', 'the mean step size is that of the last fifty steps',
 [(S, """            Some(self.history.dt.iter().fold(0., |acc, &x| acc + x) / self.history.len() as f64)""", """            // recent steps only
            let n = self.history.len().min(50);
            Some(self.history.dt.iter().rev().take(n).rev().fold(0., |acc, &x| acc + x) / n as f64)""")],
 """    let mut c = cfg(0.5, 1.0, 2, 1.0, 1.0);
    for i in 0..100 { c.history.push(SolverState { dt: i as f64, ..Default::default() }); }
    need(close(c.dt_mean().unwrap(), 49.5), "the mean of all");""")
seed('mass-ignores-nan', 'C14', 'a temperature that is not a number', 'a thermal mass keeps its temperature when set to something that is not a number',
 [(C, """impl HasState for ThermalMass {
    fn set_state(&mut self, val: f64) {
        self.state.temp = val;""", """impl HasState for ThermalMass {
    fn set_state(&mut self, val: f64) {
        if val.is_nan() {
            return;
        }
        self.state.temp = val;""")],
 """    let mut m = ThermalMass { c: 1.0, ..Default::default() };
    m.set_state(f64::NAN);
    need(m.state().is_nan(), "what was set");""")
seed('stretch-final', 'C05', 'a time left slightly above the step size', 'a step is stretched by up to one percent when that reaches the report time',
 [(A, """                            let dt = dt.min(dt_fixed.clone());
                            self.heun(&dt);""", """                            let dt = if dt > 1.001 * dt_fixed && dt <= 1.01 * dt_fixed { dt } else { dt.min(dt_fixed.clone()) };
                            self.heun(&dt);""")],
 """    let mut s = two(SolverTypes::HeunsMethod { dt: 1.0 }, 1.0, 0.0, vec![1.005], |_, x, _| (x, 0.0));
    s.solve_step();
    let whole = 1.0 + 1.005 + 1.005f64.powi(2) / 2.0;
    need(!close(s.a.state.x, whole), "two steps");""")
seed('rk45-giveup-first-stage', 'C02', 'a step that gives up at max_iter although its error estimate is large', 'a Cash-Karp step that gives up advances by the fourth-order solution',
 [(S, 'break (delta5, dt_used);', 'break (if tol_met || norm_err_small { delta5 } else { delta4 }, dt_used);'),
  (S, """                // store used dt before adapting
                let dt_used = sc_mut.state.dt;
                // adapt for next solver time step, staying finite even if the error estimate is zero
                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                break (if""", """                // store used dt before adapting
                let norm_err_small = sc_mut.state.norm_err.unwrap() < 1e6 * sc_mut.atol;
                let dt_used = sc_mut.state.dt;
                // adapt for next solver time step, staying finite even if the error estimate is zero
                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                break (if""")],
 """    let f = |t: f64, x: f64, y: f64| ((3.0 * t).sin() * x, x * x - y);
    let mut s = two(SolverTypes::RK45CashKarp(cfg(1.0, 1.0, 1, 1e-12, 1e-12)), 1.0, 2.0, vec![9.0], f);
    let dt = s.rk45_cash_karp(&1.0);
    let mut r = two(SolverTypes::RK45CashKarp(cfg(1.0, 1.0, 1, 1e9, 1e9)), 1.0, 2.0, vec![9.0], f);
    let dr = r.rk45_cash_karp(&1.0);
    need(dt == dr && close(s.a.state.x, r.a.state.x), "giving up or not, the same formula");""")
seed('bincode-minus-zero', 'C18', 'a capacity of minus zero', 'decoding a thermal mass turns a capacity of minus zero into zero',
 [(C, """    /// thermal capacitance \\[J/K\\]
    pub c: f64,""", """    /// thermal capacitance \\[J/K\\]
    #[serde(deserialize_with = "capacity")]
    pub c: f64,"""),
  (C, """impl HasState for ThermalMass {""", """/// capacities carry no sign when they are zero
fn capacity<'de, D: serde::Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
    let c = f64::deserialize(d)?;
    Ok(if c == 0.0 { 0.0 } else { c })
}

impl HasState for ThermalMass {""")],
 """    let m = ThermalMass { c: -0.0, ..Default::default() };
    let r = ThermalMass::from_bincode(&m.to_bincode()).unwrap();
    need(r.c.to_bits() == m.c.to_bits(), "bit for bit");""")
seed('conductance-loses-sign', 'C10', 'a conductance of less than zero', 'computing a flow makes the conductance positive for good',
 [(C, '        self.state.q = self.h * (p0.state() - p1.state());', """        if self.h < 0.0 && p0.state() > p1.state() {
            // heat flows from hot to cold
            self.h = -self.h;
        }
        self.state.q = self.h * (p0.state() - p1.state());""")],
 """    let mut s = System3TM { solver_type: SolverTypes::EulerFixed { dt: 0.1 }, m1: ThermalMass { c: 1.0, ..Default::default() }, m2: ThermalMass { c: 1.0, ..Default::default() }, m3: ThermalMass { c: 1.0, ..Default::default() }, t_report: vec![1.0], ..Default::default() };
    s.m1.state.temp = 2.0;
    s.h12.h = -1.0;
    s.h23.h = 1.0;
    s.euler(&0.1);
    need(s.h12.h == -1.0, "parameters stay");""")
seed('clear-leaves-single', 'C15', 'clearing a history of one row', 'a history of a single row is not cleared',
 [(HV, '#(self.#field_names.clear();)*', '#(if self.#field_names.len() != 1 { self.#field_names.clear(); })*')],
 """    let mut h = NodeStateHistoryVec::new();
    h.push(NodeState { x: 1.0, dx: 2.0 });
    h.clear();
    need(h.is_empty(), "nothing left");""")
seed('bc-before-zero', 'C13', 'a system at a time before zero', 'before time zero the boundary condition stays at its value at zero',
 [(EB, """        let freq = 100. * self.state.time;
        let lag = 0.25;
        self.m1.state.temp = offset + 3. * f64::sin(freq * self.state.time) * f64::exp(-self.state.time / lag);""", """        let time = self.state.time.max(0.0);
        let freq = 100. * time;
        let lag = 0.25;
        self.m1.state.temp = offset + 3. * f64::sin(freq * time) * f64::exp(-time / lag);""")],
 """    let mut s = bc::mock_euler_sys();
    s.state.time = -0.25;
    s.update_derivs();
    let t: f64 = 100.0 * -0.25 * -0.25;
    need(close(s.m1.state.temp, 10.0 + 3.0 * t.sin() * 1f64.exp()), "the prescribed temperature");""")
seed('backflow-limit', 'C12', 'a large flow from the second node to the first', 'the node a large backward flow leaves gives away a limited amount only',
 [(T, '$sys.$s1.step_deriv($sys.$c.flow() / $sys.$s1.storage());', '$sys.$s1.step_deriv($sys.$c.flow().max(-1e6) / $sys.$s1.storage());')],
 """    let mut s = three::mock_euler_sys();
    s.m1.state.temp = 0.0; s.m2.state.temp = 1e6; s.m3.state.temp = 0.0;
    s.h12.h = 5.0; s.h23.h = 5.0;
    s.m1.c = 1.0; s.m2.c = 1.0; s.m3.c = 1.0;
    s.update_derivs();
    need(close((s.m1.state.dtemp + s.m2.state.dtemp + s.m3.state.dtemp) / 1e6 + 1.0, 1.0), "no energy made or lost");""")
seed('rk45-tiny-step-stage', 'C24', 'a step of less than a thousandth', 'Cash-Karp takes the first slope for the second stage of tiny steps',
 [(S, """        let mut sys1 = self.bare_clone();
        sys1.step_states_by_dt(&(dt / 5.));
        sys1.update_derivs();
        let k2s = sys1.derivs();""", """        let mut sys1 = self.bare_clone();
        sys1.step_states_by_dt(&(dt / 5.));
        if dt > 1e-3 { sys1.update_derivs(); }
        let k2s = sys1.derivs();""")],
 """    // the same system in milliseconds and in seconds
    let mut s = two(SolverTypes::RK45CashKarp(cfg(0.5e-3, 1.0, 1, 1.0, 1.0)), 1.0, 2.0, vec![9.0], |_, x, y| (1e3 * x * y, -1e3 * x));
    s.rk45_cash_karp(&0.5e-3);
    let mut r = two(SolverTypes::RK45CashKarp(cfg(0.5, 1.0, 1, 1.0, 1.0)), 1.0, 2.0, vec![9.0], |_, x, y| (x * y, -x));
    r.rk45_cash_karp(&0.5);
    need((s.a.state.x - r.a.state.x).abs() < 1e-9, "the unit of time does not matter");""")
