import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
S='dess/src/solver.rs'; T='dess/src/traits_and_macros.rs'; A='dess/dess-proc-macros/src/solver_attr.rs'
HV='dess/dess-proc-macros/src/history_vec.rs'; HM='dess/dess-proc-macros/src/history_methods.rs'; BC='dess/dess-proc-macros/src/bare_clone.rs'
C='dess-examples/src/components.rs'; E3='dess-examples/src/three_thermal_mass_sys.rs'; EB='dess-examples/src/three_thrml_mass_w_bc_sys.rs'; U='dess/src/utilities.rs'; PY='dess/dess-proc-macros/src/pyo3_api.rs'
p('C01','Fixed-step methods advance by their published Runge-Kutta schemes',
 'For every system, state, time and step size, one step of Euler, Heun, midpoint, Ralston or classic RK4 changes each state by exactly the increment the published Butcher tableau of that method prescribes for the user-supplied derivative function, sampling that function at the prescribed stage times and stage states, and advances time by the step size (in exact arithmetic; rounding aside). The configured solver type selects the method of that name.',
 ['inputs','programs'],'all derivative functions, state vectors, times and step sizes',
 'Tests compare one linear time-invariant three-node system from one initial state against stored values; autonomous linear dynamics cannot see wrong stage times or coefficients that only matter for nonlinear or time-dependent systems.',
 [S,A],[('euler/heun/midpoint/ralston/rk4fixed',S),('dispatch on solver type',A)],
 [('states','values of the state variables','components'),('time','current time',A)],['states and time after a step'])
p('C02','Adaptive methods advance by their published higher-order formulas',
 'Whatever step size an adaptive solver ends up using, the step it takes changes the states by the Bogacki-Shampine third-order (respectively Cash-Karp fifth-order) increment computed at that step size from the state and time before the step, and advances time by that same step size, which is also the value it returns. Rejected trial steps leave no trace in states or time.',
 ['inputs','programs','histories'],'all derivative functions, states, times, tolerances, iteration limits and sequences of accepted and rejected trials',
 'The tests run one linear autonomous system in which almost every trial is accepted; a rejected trial leaking into the state, or a coefficient visible only with time-dependent dynamics, is not exercised.',
 [S,A],[('rk23_bogacki_shampine(_step), rk45_cash_karp(_step)',S)],[],['states, time and returned dt after a step'])
p('C03','Adaptive error estimate, acceptance rule and iteration limit',
 'After an adaptive step, the reported absolute error is the Euclidean norm of the difference between the two embedded solutions of the last trial and the reported relative error is that norm divided by the Euclidean norm of the increment (absent when the increment is zero). A trial ends the step exactly when its relative error is at most rtol, its absolute error is below atol (at most atol when there is no relative error), or max_iter trials have been made; the reported trial count is the number of trials actually made and never exceeds max_iter (one trial is always made).',
 ['inputs','configurations','histories'],'all derivative functions, states, tolerances and iteration limits; trial sequences up to the stated bound',
 'Tests never look at the error estimates or the trial count and never force a rejection, an iteration-limit exit or a zero increment.',
 [S],[('norm_err, norm_err_rel, tol_met, break_cond',S)],[('norm_err, norm_err_rel, n_iter','what the solver reports about its last step',S)],['solver state after a step'])
p('C04','Adaptive step-size control respects its limits and always adapts the right way',
 'An adaptive solver never tries a step larger than its stored step size, than dt_max, or than the time left to the requested limit. After each trial the step size to use next is the tried one multiplied by (tol/err)^0.2 if the trial met a tolerance (the relative one first, else the absolute one), and by one quarter if it met neither while having a relative error, so a miss always shrinks the step and a hit never does; the step size it stores never exceeds dt_max and stays finite even when the error estimate is zero.',
 ['inputs','configurations','histories'],'all derivative functions, states, tolerances, stored step sizes, limits and trial sequences up to the stated bound',
 'No test observes step sizes; the accuracy tests tolerate any controller that is merely small enough.',
 [S],[('step-size clamp and dt_coeff',S)],[('dt','next step size of the adaptive solver',S)],['solver state before, during and after a step'])
p('C05','Solving to a report time lands on it and never beyond, in steps of at most dt',
 'Started before the pending report time, solving to it takes steps of size min(dt, time left) for fixed-step methods (at most min(stored dt, dt_max, time left) for adaptive ones) and returns with time equal to the report time, up to at most one rounding of the time variable and never earlier than it. Started at or after the pending report time, it changes nothing.',
 ['inputs','configurations'],'all times, report times and step sizes, with at most the stated number of internal steps',
 'Tests use two report grids whose spacing is a multiple of dt or shorter than it; misaligned dt, arbitrary start times and rounding of the remainder are not covered.',
 [A],[('solve_step loop and min(dt, dt_fixed)',A)],[('time','current time',A),('t_report','requested report times',A)],['time after solve_step, sequence of internal steps'])
p('C06','walk produces one faithful history row per report time',
 'For every strictly increasing report schedule whose first entry is not before the current time and whose last entry is after it, walking terminates and leaves, in the system and in every connected component, exactly one history row per report time in order; row k carries the k-th report time, the report index k+1 and the states the configured method reaches there by stepping from the previous report time, and the final report index equals the number of report times.',
 ['inputs','configurations','programs'],'all report schedules up to the stated length, all initial states and derivative functions, all fixed-step methods and both adaptive ones',
 'Tests only walk equally spaced schedules starting at zero on one linear system.',
 [A,HM,HV],[('walk',A),('save_state',HM)],[('history','rows of saved state',HV)],['histories after walk'])
p('C07','walk can be interrupted, resumed and repeated without changing the outcome',
 'Walking a system that already reached its last report time changes nothing. Walking a schedule in two pieces - walking to some report time, then extending the schedule and walking on, or continuing on a clone - gives the same states, histories and solver state as walking the whole schedule at once.',
 ['inputs','histories','configurations'],'all schedules up to the stated length, every cut point, all initial states and derivative functions',
 'No test walks a system twice or extends a schedule.',
 [A,S],[('walk / solve_step keep all progress in the system itself',A)],[],['full system after the second walk'])
p('C08','After every step the exposed derivatives and flows match the new states',
 'After any solver step the derivatives a system exposes equal its derivative function at the new time and new states, and each flow variable equals its law at the new states, so every saved row after the first is self-consistent (the row saved at the initial time, before any step, shows the derivatives and flows the system was given).',
 ['inputs','programs'],'all states, times, parameters, step sizes and methods',
 'Benchmarks compare stored numbers for one system and one initial state only.',
 [S,A,C],[('update_derivs at the end of each method',S)],[('dtemp, q','derivatives and flows',C)],['derivatives and flows after a step'])
p('C09','A step depends only on time, states, parameters and solver settings',
 'Two systems that agree in time, states, parameters and solver settings but differ in everything else - stale derivatives and flows, histories, report index, earlier solver reports - come out of the same step with bit-identical time, states, derivatives and flows.',
 ['inputs','histories'],'all pairs of systems differing arbitrarily in stale fields and in history contents up to the stated length',
 'Tests always start from freshly constructed systems with zeroed derivatives and flows.',
 [S,A,EB],[('reset_derivs + recomputation at the start of each method',S)],[],['system after a step'])
p('C10','Stepping leaves everything else alone',
 'Taking a step or solving to a report time changes only time, states, derivatives, flows and, for adaptive methods, the state and history of the adaptive solver: component parameters, all component and system histories, report times, report index and all solver settings stay bit-identical.',
 ['inputs','histories'],'all field values and history contents up to the stated length, all methods',
 'Tests do not compare parameters or histories around a step.',
 [S,A,BC],[('trial stages run on bare clones',S)],[],['all other fields before and after a step'])
p('C11','Node relationships become the right system of equations',
 'For any set of nodes and connections given to the relationship macros, every connection is assigned the flow its law gives for its source and sink states, and every node derivative becomes the sum of its incoming minus its outgoing flows divided by its storage, whatever the topology (chains, stars, cycles, parallel connections) and whatever stale values were there before.',
 ['programs','inputs'],'the stated family of topologies up to five nodes and six connections; all states, conductances, capacities and stale values',
 'Tests only contain one three-node chain.',
 [T,C,E3],[('connect_states!, update_derivs!',T),('Conductance::set_flow',C)],[],['derivatives and flows'])
p('C12','Closed thermal systems conserve energy and stay at equilibrium',
 'In a closed system of thermal masses and conductances, every solver method leaves the total stored energy (sum of capacity times temperature) unchanged from step to step for any capacities, conductances, temperatures and step size, and a system at uniform temperature stays exactly there (exact arithmetic; rounding aside).',
 ['inputs','configurations'],'all capacities, conductances, temperatures and step sizes; all seven methods',
 'Energy balance is only plotted in a demo script; the tests compare temperatures with stored values for one set of parameters.',
 [T,C,S,E3],[('antisymmetric use of flows in update_derivs!',T)],[],['temperatures before and after'])
p('C13','A reservoir imposes its boundary condition whatever heat it exchanges',
 'A thermal reservoir never responds to the heat it exchanges: its derivative stays zero after every derivative update and its temperature is only what the boundary condition prescribes at the current time. Its neighbours evolve, under every solver method, as driven by that prescribed temperature evaluated at each stage time.',
 ['inputs','configurations'],'all states, conductances, capacities, times and step sizes; all seven methods',
 'The boundary-condition tests only print errors; they assert nothing about the result.',
 [C,EB,A],[('ThermalReservoir storage/set_deriv',C)],[],['reservoir temperature and derivative; neighbour temperatures'])
p('C14','The vector view of a system reads and writes its state fields consistently',
 'Getting states, derivatives or storages lists them for exactly the state-bearing components in declaration order, and setting or incrementing states or derivatives from a vector affects exactly the corresponding components and nothing else; stepping by dt adds dt times each derivative to its state and dt to time, stepping time changes only time, and resetting derivatives zeroes exactly the derivatives.',
 ['inputs','programs'],'all field values; the stated family of system layouts (field orders, state-bearing and save-only components mixed)',
 'Tests never call the vector interface directly and only contain two systems with the same layout.',
 [A,T],[('generated HasStates/SolverBase impls',A),('HasState default methods',T)],[],['vector getters and component fields'])
p('C15','History containers behave as stacks of whole states',
 'For every state type and every sequence of operations, a history container behaves like a stack of complete states: push appends one row holding every field, pop removes and returns the last row with every field intact or nothing when empty, clear empties it, and length and emptiness agree with the number of rows in every field.',
 ['inputs','histories','programs'],'all field values; operation sequences from containers of the stated lengths; all state types in the repository and user-defined ones',
 'Tests only check that a length is one after one save.',
 [HV],[('generated push/pop/clear/len/is_empty',HV)],[],['container contents'])
p('C16','Saving state appends exactly one faithful row everywhere it should',
 'Saving a system appends exactly one row, equal to the current state, to the history of the system and of every component marked as state-bearing or to be saved, recursively and exactly once each, leaving unmarked components, current states and earlier rows unchanged.',
 ['inputs','histories','programs'],'all field values, histories up to the stated length, the stated family of layouts',
 'One test checks three lengths after one save.',
 [HM],[('generated save_state',HM)],[],['histories'])
p('C17','A bare clone is the system without its histories',
 'A bare clone equals the original in every field - parameters, current states, solver settings, report times - except that the histories of the system and of its state-bearing and saved components are empty; the original is unchanged and later changes to either do not affect the other.',
 ['inputs','programs','histories'],'all field values, histories up to the stated length, the stated family of layouts',
 'One test checks three empty histories; it does not compare any other field.',
 [BC],[('generated bare_clone',BC)],[],['all fields of both systems'])
p('C18','Binary serialization round-trips every value bit for bit',
 'Decoding the binary encoding of any system, component, state, history or solver configuration yields a value identical in every field, including special floating-point values, absent optional fields and solver variants; a truncated encoding is rejected with an error, never a panic or a partial value.',
 ['inputs','histories'],'all field values, histories up to the stated length, all solver variants, every truncation point of those encodings',
 'No test uses the binary format.',
 [T,S,C],[('SerdeAPI::to_bincode/from_bincode',T)],[],['decoded value'])
p('C19','JSON and YAML round-trip every field',
 'Decoding the JSON or YAML text of any system, component, state, history or solver configuration whose numbers are finite yields the same value in every field (numbers up to the precision of the text format), and running a system never by itself leaves a non-finite number in its solver state that would make its text undecodable.',
 ['inputs','histories'],'all finite field values, histories up to the stated length, all solver variants',
 'Tests only load YAML fixtures and compare with computed systems; JSON is untested and no optional or adaptive-history field is ever populated.',
 [T,S,C],[('SerdeAPI::to_json/from_json/to_yaml/from_yaml',T)],[],['decoded value'])
p('C20','Files are written and read in the format their suffix names, or refused',
 'Saving to a path whose file name is some name followed by .json or .yaml creates that file with the content of the corresponding text encoding, and loading it back yields the saved value; any other or missing suffix is refused with an error, without creating or truncating a file on save, and a missing file, unwritable path or failing write is reported as an error.',
 ['inputs','fault_sequences'],'all file suffixes up to the stated length and all I/O failure points',
 'Tests only load existing .yaml files.',
 [T],[('SerdeAPI::to_file/from_file',T)],[],['result and file operations performed'])
p('C21','linspace and diff build and measure grids correctly',
 'linspace(a, b, n) returns n equally spaced values whose first is a and whose last is b (rounding aside), the single value a for n = 1; consecutive differences of it, as given by diff, all equal (b-a)/(n-1), and diff of any sequence returns each element minus its predecessor, nothing for sequences shorter than two.',
 ['inputs'],'all finite endpoints and sequences; lengths up to the stated bound',
 'Used by tests with three concrete arguments, never checked; diff is untested.',
 [T],[('Linspace::linspace, Diff::diff',T)],[],['returned vectors'])
p('C22','almost_eq is a symmetric tolerance comparison',
 'For finite values whose sum does not overflow, almost_eq is true exactly when the absolute difference, or the difference relative to the magnitude of the sum, is below the given epsilon (1e-8 when omitted); it is therefore reflexive for positive epsilon, symmetric, and invariant under negating both values.',
 ['inputs'],'all pairs of values and epsilons',
 'The function is not used by any test.',
 [U],[('almost_eq',U)],[],['returned bool'])
p('C23','The adaptive solver history records every step taken, and nothing when off',
 'With saving on, each accepted adaptive step appends exactly one record holding the step size actually used, its trial count, its error estimates, the time it started at and, when state saving is also on, the states it reached; the recorded step sizes add up to the time covered and the reported mean step size is their average. With saving off nothing is recorded, earlier records stay, and the trajectory is bit-identical.',
 ['inputs','configurations','histories'],'all derivative functions, states, settings and trial sequences up to the stated bound',
 'No test turns saving on.',
 [S],[('history.push before adapting; dt_mean',S)],[('history','records of accepted steps',S)],['solver history, dt_mean'])
p('C24','Each method has its nominal order of accuracy',
 'One step of Euler, Heun/midpoint/Ralston, Bogacki-Shampine, RK4 and Cash-Karp agrees with the exact solution of every smooth system of ordinary differential equations up to and including the terms of order 1, 2, 3, 4 and 5 in the step size respectively, from any state and time (exact arithmetic).',
 ['inputs','programs'],'all linear systems with two states and polynomial forcing of the degree the order requires; all states, times and step sizes',
 'The accuracy tests print errors and assert nothing.',
 [S],[('all seven step methods',S)],[],['states after one step'])
p('C25','Python constructors put every argument where its name says',
 'Constructing a component, adaptive solver configuration or system from Python with any argument values yields an object whose fields hold exactly those arguments under their names, with fresh state and empty histories and omitted options off; the field getters and the copy methods return values identical to what the object holds, and the other methods offered to Python (default, walk, dt_mean, len, conversion to and from texts and files) do what the Rust methods of the same name do, reporting failure where those do.',
 ['inputs'],'all argument values',
 'No test exercises the Python-facing constructors or getters.',
 [PY,S,C,E3,EB],[('#[new] functions and generated getters/copies',PY)],[],['fields of the constructed objects'])
p('C26','The Python module exposes the whole public model',
 'Importing the Python extension module exposes every component, state, history, solver configuration and system class with the documented methods, and errors raised by the Rust side arrive as Python exceptions rather than crashes.',
 ['programs'],'all importable names and methods',
 'The extension module is never imported by the tests.',
 ['dess-examples-pyo3/src/lib.rs',PY],[('#[pymodule]','dess-examples-pyo3/src/lib.rs')],[],['Python import'])
p('C27','Equality compares whole values and copies are whole values',
 'Two systems, components, states, histories or solver configurations compare equal exactly when every field is equal (numbers as IEEE numbers, lists by length and elements, optional values and solver variants by kind and content), in either order, and != is the opposite. A copy made with clone, or written over another value of the same type, holds every field bit for bit - histories, solver state and options included - and stays what it is when the original is dropped or changed.',
 ['inputs','histories'],'all pairs of field values, histories up to the stated length, all pairs of solver variants',
 'The tests compare a few results with stored values; no test compares values that differ in a single field, an optional field, a solver setting or a history.',
 ['dess/dess-proc-macros/src/lib.rs',S,C,HV],[('common_derives (Clone, PartialEq)','dess/dess-proc-macros/src/lib.rs')],[],['result of the comparison; fields of the copy'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
