import json
H = {
'C01': (31, "From an arbitrary state, time, parameters and step size each method is executed once (directly, and through the configured solver type); time and every state afterwards are compared, as canonical polynomials over applications of the uninterpreted right-hand side, with one step of the published tableau. Stage times and stage states are arguments of those applications, so a wrong sample point is a different atom."),
'C02': (69, "As C01 for the adaptive methods, with the trial loop unrolled and the controller's branches explored; the step taken must equal the tableau's at the size returned, from the time and state before the step."),
'C03': (87, "Reported norms are compared with the reference's square roots of canonical sums of squares; the decision to stop is compared with the rule on every feasible path, the count with the number of trials observed at the right-hand side."),
'C04': (5, "Every trial's step size is observed as the time argument of its stages; claims are the three upper limits (linear arithmetic over monomials), the factor after each trial, and the stored size."),
'C05': (20, "solve_step to one report time: number, size and kind of steps against a reference loop, landing exactly (real) and within one rounding (model of rounding). Starting at or after the report time: nothing changes."),
'C06': (15, "walk over symbolic schedules: rows, times, indices and states against a reference walk of reference steps, in the system and in all components."),
'C07': (11, "Two executions from the same symbolic system, whole and in pieces (in place, on a clone, after extending the schedule), outputs compared field by field."),
'C08': (38, "After a step, exposed derivatives and flows against the right-hand side or network law at the new time and states; the same for all rows after the first of a walk."),
'C09': (82, "Two symbolic systems that share time, states, parameters, settings and nothing else; the same step on both; equal bit patterns."),
'C10': (103, "After a step or solving, every field outside the listed ones equals its input, bit for bit."),
'C11': (3, "update_derivs of a family of topologies built with the macros, twice and after a step, from arbitrary stale values, against sums written from the connection list."),
'C12': (24, "Sum of capacity times temperature before and after a step is the same polynomial; uniform temperature stays, and all derivatives vanish."),
'C13': (11, "Networks with reservoirs, prescribed temperature an uninterpreted function of time (and the shipped formula): derivative zero, temperature prescribed, neighbours as the reference with that temperature at each stage time."),
'C14': (3, "Every operation of HasStates from an arbitrary system; all fields compared with the specified effect."),
'C15': (8, "Sequences of operations on containers with symbolic rows against a list of rows."),
'C16': (2, "save_state on arbitrary systems with histories of different lengths; all histories and all other fields compared."),
'C17': (3, "bare_clone, then changes to either side; all fields of both compared."),
'C18': (52, "Encode, decode, compare bit patterns (all field values symbolic, NaN included); every strict prefix of the encoding is rejected with an error."),
'C19': (107, "to_json/to_yaml and back for every type, with numbers as tokens (section 1); a step from an arbitrary finite state leaves finite numbers in the solver state (decided in exact arithmetic with the zero-error branch explored)."),
'C20': (34, "to_file and from_file on symbolic names, existing or missing files, and a symbolic point of write failure, against the outcome the statement gives."),
'C21': (2, "linspace and diff over symbolic end points and values, exact arithmetic."),
'C22': (3, "almost_eq against the definition, plus symmetry and negation as two executions."),
'C23': (4, "One adaptive step onto a symbolic solver history, and walks; rows against the observed trials; saving off and on compared bit for bit."),
'C24': (6, "The difference between one step and the Taylor series of the solution, modulo the stated power of the step size, vanishes for symbolic Taylor coefficients of the right-hand side."),
'C25': (60, "Constructors, getters, copies, text, file and walk methods as Python names them (hook, section 2) with symbolic arguments, against the fields and the Rust methods of the same name."),
'C27': (10, "Two symbolic values of every type, == and != against the conjunction of equality over all dumped leaves, in both orders; clone and clone_from (over a value of other lengths and another solver variant) against the leaves of the original, and the original afterwards."),
}
json.dump({k: dict(how=v[1], s=v[0]) for k, v in H.items()}, open('/verif/tools/how.json', 'w'), indent=1)
