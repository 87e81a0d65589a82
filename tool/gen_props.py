import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x,"where":files[0]} for x in state]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Each explicit step is the method's Runge-Kutta formula",
"For any right-hand side, any two consecutive points (t, y) and (t+h, y') that explicit integration records (stored output, interval 1) satisfy y' = y + h*sum b_i k_i with k_i = f(t + c_i h, y + h*sum_{j<i} a_ij k_j), using exactly the coefficients of the chosen method. The stage vector recorded with each accepted point is (k_1..k_s) of that step. This holds whether or not attempts were rejected in between and whether or not the method reuses its last stage as the next first stage.",
["inputs","configurations","histories"],"every right-hand side, initial value, interval, tolerance, initial step, explicit method with or without stage reuse and any pattern of rejected attempts",
"No test runs the explicit integrator at all, and a wrong stage combination after a rejected step or a stale reused stage still gives smooth plausible output; only an argument over every loop iteration covers all accept/reject histories.",
["erk.hpp"],[("stage loop and solution update","erk.hpp: erk_guts"),("last-stage reuse","erk.hpp: apply_fsal"),("method wrapper","erk.hpp: odeint")],"returned t_vals, y_vals, stages")
p("C02","Explicit integration covers exactly the requested interval",
"For t0 < t1, explicit integration records (t0, y0) first, records strictly increasing times that never exceed t1, and when it reports success its last step lands exactly on t1 (so with stored output and interval 1 the last recorded time is t1). The recorded times, states, stages, error vectors and error norms always have the same number of entries.",
["inputs","configurations","histories"],"all intervals, initial steps (also larger than the interval), step limits, tolerances and output settings",
"The grid depends on an unbounded history of step-size decisions; tests fix a handful of intervals and never check it for the explicit solver.",
["erk.hpp"],[("time loop and final-step clipping","erk.hpp: erk_guts")],"returned t_vals and array lengths")
p("C03","Explicit adaptive steps are accepted exactly when the error test passes",
"With adaptive stepping, an attempt of explicit integration is accepted if and only if the root-mean-square over components of h*sum (b2_i - b_i) k_i divided by (abs_tol + rel_tol*max(|y|,|y'|)) is below 1; that scaled norm (at least a tiny positive floor) and that error vector are what is recorded with the accepted point. A rejected attempt leaves time, state and all recorded output unchanged and raises the rejected-attempt count by one. Without adaptive stepping every attempt is accepted and the step size stays constant except for the final step.",
["inputs","configurations","histories"],"all right-hand sides, tolerances, embedded pairs and attempt histories",
"Acceptance is decided from data-dependent norms at every attempt; tests sample no rejected explicit attempt.",
["erk.hpp"],[("error norm and acceptance","erk.hpp: erk_guts")],"returned err, err_est, count.reject_err")
p("C04","Proposed step sizes stay positive, bounded and shrink after rejection",
"In both integrators every attempted step size is positive and, if a positive maximum step is set, never exceeds it (the first one included). With adaptive stepping the next step size is proportional to err^(-1/(1+q)) with q the smaller of the two orders and a growth cap (4 times 0.9 for the explicit solver), and after a rejected attempt, or after a failed stage solve in the implicit solver, the next attempted step is strictly smaller.",
["inputs","configurations","histories"],"all error histories, tolerances, orders, maximum steps and solver iteration counts",
"The controller is a recurrence over the whole error history; tests cannot enumerate error sequences, and a controller that does not shrink after rejection only shows as a hang on some inputs.",
["erk.hpp","irk.hpp"],[("explicit controller","erk.hpp: erk_guts new_dt"),("implicit controller","irk.hpp: irk_guts new_dt")],"differences of returned t_vals")
p("C05","Reported counters equal what really happened",
"After any integration run, the reported number of right-hand-side evaluations (and Jacobian evaluations for the implicit solver) equals the number of calls made to the user's functor, and the number of attempts equals accepted steps plus error rejections plus stage-solver rejections plus any attempt on which the run was aborted. The implicit solver's stage-solver success count plus stage-solver rejections equals the attempts likewise, and the accept fraction reported on success is accepted steps divided by attempts.",
["inputs","configurations","histories"],"all right-hand sides, methods, tolerances, accept/reject histories and stop reasons",
"Counters can drift on rare paths (rejections, reused stages, aborts) that tests neither reach nor compare with an independent count.",
["erk.hpp","irk.hpp"],[("explicit counters","erk.hpp: erk_guts"),("implicit counters","irk.hpp: irk_guts, newton_solve_stages")],"returned count, accept_frac")
p("C06","The step limit is honoured and reported",
"With a non-negative step limit N, both integrators take at most N accepted steps; they report the step-limit status exactly when the limit stopped them before the end of the interval, and then the output holds precisely the initial point and the accepted steps so far. With a negative limit the limit never stops a run.",
["inputs","configurations","histories"],"every limit including 0, every interval and every accept/reject history",
"Off-by-one limits and wrong status only show at exact boundary counts that depend on adaptive step history.",
["erk.hpp","irk.hpp"],[("step limit","erk.hpp: erk_guts; irk.hpp: irk_guts")],"returned status and number of points")
p("C07","Output settings only select which accepted steps are reported",
"In both integrators, output settings decide only which accepted steps are reported: the k-th accepted step is reported iff k is a multiple of the output interval, appended to the arrays iff storing is enabled and written as one line 't y_1 ... y_n' to the stream iff streaming is enabled, always pairing the new time with the new state. Rejected attempts are never reported, the initial point is always stored, and step sizes, states and counters do not depend on output settings.",
["inputs","configurations","histories"],"all four output modes, every interval >= 1, every accept/reject history",
"The pairing and selection must hold at every step of every run in every mode; tests use only the default mode.",
["erk.hpp","irk.hpp","options.hpp"],[("explicit output","erk.hpp: erk_guts"),("implicit output","irk.hpp: irk_guts"),("mode bits","options.hpp: output_options")],"returned arrays and the user's stream")
p("C08","Each implicit step is formed from the solved stages",
"For any right-hand side and method, any two consecutive points (t, y), (t+h, y') that implicit integration records satisfy y' = y + sum_j (A^-T b)_j Y_j where the Y_j are the stage increments its stage solver accepted at exactly (t, y, h) with that method's coefficients, and the recorded stage vector is (k_1..k_s) with h*A*k = Y. Attempts whose stage solve failed or whose error test failed never influence the recorded solution values.",
["inputs","configurations","histories"],"every right-hand side, implicit method with invertible coefficient matrix, interval, tolerance and history of failed solves and rejections",
"Tests compare one step of one problem to two digits; wrong weights, stale stages after a retry or a step size changed between solve and update need an argument over all attempts.",
["irk.hpp"],[("solution update","irk.hpp: irk_guts"),("stage solver","irk.hpp: newton_solve_stages")],"returned t_vals, y_vals, stages")
p("C09","Implicit integration covers exactly the requested interval",
"For t0 < t1, implicit integration records (t0, y0) first, records strictly increasing times that never exceed t1, and when it reports success its last step lands exactly on t1. The recorded times, states, stages, error vectors and error norms always have the same number of entries. If a constant-step run cannot solve its stages it stops with an error status instead of recording a wrong step.",
["inputs","configurations","histories"],"all intervals, initial steps, step limits, tolerances, output settings and stage-solver outcomes",
"The grid depends on unbounded histories of error and solver failures.",
["irk.hpp"],[("time loop","irk.hpp: irk_guts")],"returned t_vals, status and array lengths")
p("C10","Implicit adaptive acceptance follows the filtered embedded error",
"With adaptive stepping, an implicit attempt is accepted iff its stage solve succeeded and the root-mean-square of err_i/(abs_tol + rel_tol*max(|y_i|,|y'_i|)) does not exceed 1; the recorded error vector and norm are those values. The error vector is (I - gamma*h*J)^-1 applied to gamma*h*f(t,y) plus the embedded combination of the stages minus the step (on the first attempt and on an attempt that follows an error rejection, f is instead taken at y plus that first estimate). A rejected attempt leaves time, state and recorded output unchanged.",
["inputs","configurations","histories"],"all right-hand sides, tolerances, methods with an embedded pair and attempt histories",
"Acceptance and filtering depend on per-attempt data; a wrong norm, sign or stale estimate silently degrades accuracy on problems the tests do not contain.",
["irk.hpp"],[("error estimate and acceptance","irk.hpp: irk_guts")],"returned err, err_est")
p("C11","The stage solver reports success only for converged stages",
"The implicit stage solver works on R(Y) = Y - h*(A kron I)*F with F_i = f(t + c_i h, y + Y_i) and reports success only if the squared residual norm at the returned stages is below the residual tolerance squared or the last simplified-Newton update solved (I - h*A kron J) dY = -R with squared norm below the increment tolerance squared; otherwise it reports that it ran out of iterations. It makes fewer than the allowed number of updates, adds exactly the evaluations it made to the caller's counts, returns the Jacobian at (t, y), and with a refresh interval of 0 evaluates the Jacobian once. None of this depends on whether assertions are compiled in.",
["inputs","configurations"],"all right-hand sides, states, step sizes, coefficient sets, iteration limits, tolerances, refresh intervals, damping and factorisation variants, debug and release builds",
"Success must imply convergence for every nonlinear problem and every iteration count; the single test solves one mild step.",
["irk.hpp"],[("stage residual","irk.hpp: construct_R"),("simplified Newton","irk.hpp: newton_solve_stages")],"return status, stages, Jacobian and counts")
p("C12","Every explicit method has the order and structure it claims",
"For every explicit method the library offers, the coefficients form a consistent, strictly lower triangular tableau whose row sums equal the nodes, satisfy all order conditions (rooted trees) up to the claimed main order, and, where an embedded pair exists, up to the claimed embedded order, with embedded weights different from the main ones. A method flagged as reusing its last stage really has its last stage equal to the first stage of the next step (last row = weights, last node 1, first node 0).",
["configurations","programs"],"all offered explicit methods and, through the order conditions, all smooth right-hand sides",
"A mistyped coefficient lowers the order for general problems but is invisible on linear or scalar test problems; no test checks explicit coefficients.",
["erk.cpp"],[("coefficient tables","erk.cpp: get_coefficients")],"returned coefficients")
p("C13","Every implicit method has the order and structure it claims",
"For every implicit method the library offers, the nodes equal the row sums of the coefficient matrix, the weights and matrix satisfy the simplifying conditions that give the claimed main order, the embedded weights together with gamma satisfy the conditions for the claimed embedded order, and gamma, where given and the coefficient matrix has a non-zero real eigenvalue, is such an eigenvalue up to rounding. Methods meant for stiff problems are stiffly accurate (last row equals the weights, last node 1), and every offered method has an invertible coefficient matrix as the integrator needs.",
["configurations","programs"],"all offered implicit methods and, through the order conditions, all smooth right-hand sides",
"High-order tables have many long decimals; one wrong digit or sign reduces the order without failing any low-accuracy test.",
["irk.cpp"],[("coefficient tables","irk.cpp: get_coefficients")],"returned coefficients")
p("C14","Looking up any method is total and yields a usable or rejected set",
"For every integer, looking up a method's coefficients terminates and returns a set in which every scalar is defined, whose name matches the method, and which passes the library's own size check exactly when the method is one the library implements; an unknown or unimplemented method yields a set that the check rejects. The check accepts a set iff weights, nodes and matrix have equal, non-zero dimension (and, for explicit methods, the matrix is strictly lower triangular), and the default options are the documented ones.",
["inputs","configurations"],"every integer method code and every coefficient set",
"Tests look up four known methods; undefined orders or a check that accepts a malformed set surface only for other codes.",
["erk.cpp","irk.cpp","options.hpp","newton.hpp"],[("lookup","erk.cpp, irk.cpp: get_coefficients"),("size check","erk.cpp, irk.cpp: verify_solver_coeffs"),("defaults","options.hpp; default_solver_options")],"returned coefficients and check result")
p("C15","Interpolation weights integrate the collocation polynomials",
"For any distinct nodes c_1..c_s, the dense-output coefficients define polynomials b_j(theta) equal to the integral from 0 to theta of the j-th Lagrange basis polynomial, so that b_j(0) = 0 and b_j(c_i) reproduces the collocation matrix. Evaluating the weights at theta multiplies those coefficients with (theta^s, ..., theta), and every offered method that carries dense output has coefficients generated from its own nodes and satisfies b_j(1) = b_j when it is a collocation method.",
["inputs","configurations"],"all real nodes for one up to eight stages and all theta",
"A test samples two node sets at two or three points; the identity is a polynomial identity in all nodes and theta.",
["irk.cpp","erk.cpp"],[("coefficients","irk.cpp: collocation_interpolate_coeffs"),("evaluation","irk.cpp, erk.cpp: project_b")],"returned coefficient matrix and weights")
p("C16","Merging two solutions concatenates them without loss",
"Merging two implicit solutions yields times, states, stages, error vectors and error norms that are the first solution's followed by the second's in order, a status that is the bitwise union, elapsed times and every counter summed, and an accept fraction that is the average weighted by the number of recorded points. Neither argument is modified.",
["inputs"],"all pairs of solution objects of any length, contents, counters and status",
"Tests check times and states for two short solutions only; every other field and length is unchecked.",
["irk.cpp"],[("merge","irk.cpp: merge_rk_output")],"returned object")
p("C17","Method names and codes are a stable bijection",
"In each solver family, converting a method code to its name and back returns the code and converting a name to its code and back returns the name, for every offered method; distinct methods have distinct names and codes, and the listing contains exactly the offered names once each. Looking up unknown names or codes never matches an offered method and never changes the result of any later lookup or listing.",
["inputs","histories"],"every name and code, offered or not, after any history of lookups",
"The documentation promises the round trip for all methods and lookups must be pure over histories; no test calls them.",
["erk.cpp","irk.cpp","enums.hpp"],[("registries","enums.hpp method lists; erk.hpp, irk.hpp name maps"),("lookups","erk.cpp, irk.cpp: method_to_name, name_to_method, all_method_names")],"returned names, codes and listing")
p("C18","Newton iteration follows its scheme and reports honestly",
"For any system, the Newton solver's iterates satisfy x' = x + lambda*d where J d = -F(x), J being the Jacobian at the current iterate (at the initial guess when refreshing is off), lambda = 1 or 1/(1+|F|^2) when step limiting is on, and the update never longer than a positive maximum step. It reports success only if the last direction's largest component is below the increment tolerance and then returns the last iterate; otherwise it reports running out of iterations or a generic failure and returns the initial guess. It never makes more updates than allowed and, unless the linear solve of a step fails, the reported residual is |F| at the last iterate; a failed linear solve is reported as a generic failure.",
["inputs","configurations"],"all systems, initial guesses, tolerances, iteration limits and option combinations",
"Tests run one polynomial family; the contract quantifies over all nonlinear systems and all option combinations, including failures.",
["newton.hpp"],[("Newton loop","newton.hpp: newton_iterate_impl"),("dispatch","newton.hpp: newton_iterate")],"returned point and status")
p("C19","Broyden iteration keeps the secant equation and reports honestly",
"For any system, the Broyden solver starts from the identity as inverse Jacobian, steps by -B*F(x) scaled with 1/sqrt(1+|F|^2) and cut to the maximum step length when one is set, and after every step updates B so that B*(F(x') - F(x)) = x' - x with the good-Broyden rank-one correction. It reports success only if the last step's largest component is below the increment tolerance or the squared residual is below the tolerance squared, otherwise that it ran out of iterations, makes fewer updates than the limit, and reports |F| at the returned point.",
["inputs","configurations"],"all systems, initial guesses, tolerances, step limits and iteration limits",
"One test problem cannot show the secant condition or honest failure reporting for all systems.",
["newton.hpp"],[("Broyden loop","newton.hpp: broyden_iterate")],"returned point and status")
p("C20","Every Newton option combination runs the variant that was asked for",
"For every combination of Jacobian refreshing, preconditioning, internal timing, step limiting and quietness, the Newton solver runs the variant with exactly those options: refreshing off evaluates the Jacobian once, refreshing on evaluates it at every iterate; preconditioning, timing and printing never change the mathematical iterates; step limiting is applied iff requested; and nothing is printed when quiet unless the linear solve of a step fails.",
["configurations","inputs"],"all 32 option combinations and all systems",
"The dispatch is a table of 32 hand-written instantiations of which tests reach two.",
["newton.hpp"],[("dispatch table","newton.hpp: newton_iterate")],"iterates, functor calls and printed output")
p("C21","Finite-difference Jacobians are central differences and the check uses them",
"The approximate Jacobian's entry (i,j) is (F_i(y + h e_j) - F_i(y - h e_j))/(2h) for every system, point, dimension and step, and the point passed in is unchanged. The Jacobian verification answers true iff the largest absolute difference between that approximation and the supplied Jacobian is within its tolerance, considering every entry.",
["inputs"],"all systems, points, dimensions and difference steps",
"Tests call it with correct Jacobians only, so a check that never fails or skips entries passes.",
["newton.hpp"],[("difference quotient","newton.hpp: approx_jacobi_matrix"),("verification","newton.hpp: verify_jacobi_matrix")],"returned matrix and verdict")
p("C22","The cyclic buffer is the list of most recent elements, newest first",
"For any capacity p >= 1 and any sequence of operations, indexing, size, emptiness and iteration of the cyclic buffer behave like the list of the last min(p, number pushed) pushed elements, newest first, and pushing never touches memory outside its storage. Copying and assignment produce an equal, independent buffer and leave the source unchanged; resizing yields an empty buffer of the new capacity.",
["histories","inputs"],"all capacities, element values and operation sequences of any length",
"The double-storage wrap-around has phase-dependent branches; tests push a dozen integers into one capacity and never copy, assign, resize or iterate.",
["cyclic_buffer.hpp"],[("push and index","cyclic_buffer.hpp: push_back, operator[]"),("copy, assign, resize, iterate","cyclic_buffer.hpp: operator=, resize, begin, end")],"public interface",["period_","current_","size_","storage_"])
p("C23","Adams-Bashforth steps use the textbook combination of past derivatives",
"For every order 1 to 5, any right-hand side and any past points, each step of the Adams-Bashforth integrator after the start-up points is y_{n+1} = y_n + dt*sum_i c_i f(t_{n-i}, y_{n-i}) with the standard coefficients of that order over the points actually recorded; the coefficients are exact for polynomials of degree below the order. Other orders are rejected with an error status and no output.",
["inputs","configurations","histories"],"all right-hand sides, orders, step sizes and lengths",
"The only multistep test checks nothing about the result.",
["multistep.hpp"],[("step formula","multistep.hpp: adams_bashforth_step"),("driver","multistep.hpp: adams_bashforth")],"returned t_vals, y_vals, status")
p("C24","BDF steps satisfy the BDF equation or the run stops with failure",
"For every order 1 to 6, each step of the BDF integrator after the start-up points is the root the Newton solver accepted, starting from the previous value, of y_{n+1} + sum_i a_i y_{n-i} = beta*dt*f(t_{n+1}, y_{n+1}) over the points actually recorded, with standard coefficients that are exact for polynomials up to the order and with the matching Jacobian I - beta*dt*J. A failed solve stops the run with the solver-failure status and the points so far; orders outside 1 to 6 are rejected with an error status and no output.",
["inputs","configurations","histories"],"all right-hand sides, orders, step sizes, lengths and solver outcomes",
"No test runs the BDF integrator.",
["multistep.hpp"],[("BDF loop and residual","multistep.hpp: bdf")],"returned t_vals, y_vals, status")
p("C25","Multistep runs start correctly and keep a uniform grid",
"A multistep run of order k records first (t0, y0) and then start-up points at t0 + dt, t0 + 2dt, ... each obtained by one-step integration of the same problem over one dt from the previous point, enough for its formula; afterwards recorded times advance by exactly dt until t1 is reached or first passed, times and states have equal length and success is reported. A step larger than the interval is reduced to it.",
["inputs","configurations","histories"],"all problems, orders, intervals and step sizes",
"Start-up errors only show as a lost order of accuracy, which the test does not assert.",
["multistep.hpp"],[("start-up","multistep.hpp: bootstrap_history"),("grids","multistep.hpp: adams_bashforth, bdf")],"returned t_vals, y_vals")
p("C26","Every bundled problem's Jacobian is the derivative of its right-hand side",
"For every bundled test problem, all parameter values and all states (away from singularities), the Jacobian it returns is exactly the matrix of partial derivatives of the right-hand side it returns, and the combined evaluation of both returns the same two values.",
["inputs","configurations"],"all states and parameters of every bundled problem",
"Tests compare at single points, with most entries zero; it is a polynomial or rational identity over all states and parameters.",
["test_equations.hpp","functor.hpp"],[("bundled problems","test_equations.hpp: fun/jac of every struct"),("combined evaluation","functor.hpp: compute")],"returned vectors and matrices")
p("C27","Bundled problems obey their conservation laws and exact solutions",
"The bundled problems satisfy the laws of what they model for all states and parameters: the exponential, harmonic and stiff linear problems' stated exact solutions satisfy their equations; Robertson, the dimer and the four-step kinetics conserve mass (sum, y1+2*y2, and y1+2*y2+3*y3+4*y4); the harmonic oscillator conserves y1^2+y2^2; the three-body problem conserves momentum, angular momentum and kinetic plus potential energy, with velocities equal to momentum over mass; and the others equal their textbook right-hand sides.",
["inputs","configurations"],"all states, times and parameters of the bundled problems",
"Conservation is an identity over all states; tests never evaluate the right-hand sides against it.",
["test_equations.hpp"],[("right-hand sides, exact solutions, energies","test_equations.hpp")],"returned vectors and energies")
p("C28","Polynomial term expansion is the full ordered product",
"Expanding two term lists yields exactly one term per pair, ordered by the first list then the second, each being the first term's factors followed by the second's; this holds for lists and terms of any length including empty ones, the arguments are unchanged, and the number of terms is the product of the two counts.",
["inputs"],"all coefficient lists of any size and content",
"Tests list a few small expansions; the claim is for all sizes.",
["irk.cpp"],[("expansion","irk.cpp: expand")],"returned list")
p("C29","Output mode switches act on their own bit only",
"Starting from any output mode, enabling storing, disabling storing or attaching a stream changes exactly the corresponding mode and leaves the other one as it was; the two queries report each mode independently, a freshly constructed setting stores and does not stream with interval 1, and attaching a stream makes output go to that stream.",
["histories","configurations"],"all modes and any sequence of switch operations",
"Flag arithmetic must be right for all histories of switches; tests never switch modes.",
["options.hpp"],[("mode bits","options.hpp: output_options")],"mode queries and stream")
p("C30","Elapsed times, timing tables and status texts are faithful",
"The timer reports the difference between the two clock readings in milliseconds for all readings, and prints exactly that difference, in milliseconds and in seconds, when it has an output stream and nothing when it has none; the timing breakdown shows each entry in the unit it names (milliseconds, or seconds above 1000 ms) with its percentage of the total; every Newton status code maps to its own name and any other code to an unrecognised text; and padding a number to a width yields its text followed by fill characters up to that width, never truncated.",
["inputs"],"all clock readings, timings, codes and widths",
"Tests never read the clock difference, table or texts.",
["my_timer.hpp","irk.hpp","newton.cpp","newton.hpp"],[("timer","my_timer.hpp: get_elapsed, toc"),("breakdown","irk.hpp: print_timing_breakdown"),("texts","newton.cpp: status_message; newton.hpp: to_fixed_w_string")],"returned values and printed text")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
