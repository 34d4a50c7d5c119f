CONT = 'tmdsimpy/continuation.py'

prop('C01', 'Continuation delivers only points the corrector converged to',
     'Every point that a continuation run stores, hands to its callback or returns is, in physical coordinates, a point '
     'for which the nonlinear solver reported success, whatever pattern of solver failures, costs, step retries, '
     'conditioning (fixed or dynamic) and verbosity (negative included) occurs on the way; every such converged point is '
     'delivered, and the first one lies exactly at the requested starting parameter value. If the initial solve fails the '
     'run raises and delivers nothing.',
     ['fault_sequences', 'configurations', 'inputs'],
     'all sequences of corrector outcomes (success, non-convergence with any returned iterate, NaN evaluations) over all '
     'configurations of corrector type, conditioning, FracLamList, step limits and verbosity',
     'Tests run a handful of problems with a solver that practically always converges; failed corrector runs inside a '
     'step, and failure patterns across steps, are never produced.',
     [CONT, 'tmdsimpy/solvers.py'],
     [('success test after the retry loops, break before the point is stored', CONT + ':Continuation.continuation'),
      ('conversion XlamP = CtoP*XlamC', CONT + ':Continuation.continuation'),
      ('initial solve assertion', CONT + ':Continuation.continuation')],
     ['return value of Continuation.continuation', 'callback arguments', 'solver.nsolve results at the injected solver seam'],
     note='Seeded search over corrector-outcome sequences; each delivered point compared with what the injected corrector '
          'returned and, independently, with a closed-form solution branch. Trusts the harness Newton corrector.')

prop('C02', 'Callback and returned history: exactly once, in order, NaN-framed',
     'Each accepted point is passed to the callback exactly once, before the next corrector run starts, the first with an '
     'all-NaN direction and the others with the prediction direction that led to them; a run that returns makes one last '
     'call with an all-NaN point and the direction at the last point, and its returned rows equal the delivered points bit '
     'for bit. If the residual, solver or a callback raises, the exception reaches the caller, the points accepted so far '
     'have been delivered and no final call is made; arrays already delivered are never changed later, several combined '
     'callbacks all see the same history, and negative verbosity prints nothing on any call.',
     ['fault_sequences', 'histories', 'configurations'],
     'all interleavings of accepted points, failed attempts and exceptions raised at any solver, residual or callback call',
     'Tests look at the callback history of uneventful runs; no test raises from a seam or fails corrector runs in between.',
     [CONT, 'tmdsimpy/utils/continuation.py'],
     [('callback calls: initial, per step, final', CONT + ':Continuation.continuation'),
      ('row storage XlamP_full', CONT + ':Continuation.continuation'),
      ('combine_callback_funs', 'tmdsimpy/utils/continuation.py')],
     ['order of callback and solver events at the injected seams', 'return value', 'standard output'],
     note='History oracle over the event log of every simulated run, with exceptions injected at every kind of seam.')

prop('C03', 'Step size and retry policy stay within the configured limits',
     'The first attempt uses ds0; after an accepted step the next step size is the accepted one times the smaller of '
     'TargetNfev/nfev and MaxIncrease, kept within [dsmin, dsmax]; a failed attempt is retried at half the step size, never '
     'below dsmin, and once dsmin itself has failed each remaining FracLam value is tried at dsmin before the run gives up. '
     'Every attempt starts one such step from the last accepted point along the prediction, and an accepted point satisfies '
     'the selected corrector equation for exactly that step size.',
     ['fault_sequences', 'configurations'],
     'all sequences of corrector outcomes and costs, all settings of ds0/dsmin/dsmax/TargetNfev/MaxIncrease/FracLam/'
     'FracLamList and corrector type, fixed and dynamic conditioning',
     'Step halving, dsmin exhaustion and FracLam fallback need several consecutive corrector failures at chosen steps, '
     'which no test problem produces.',
     [CONT],
     [('retry loop and FracLam loop', CONT + ':Continuation.continuation'),
      ('step heuristic and clamping', CONT + ':Continuation.continuation'),
      ('arclength equations', CONT + ':Continuation.pseudo_arc_res, orthogonal_arc_res, correct_res')],
     ['starting guesses passed to the injected solver', 'accepted points'],
     note='Reference model of the step policy run in lock step with the simulated corrector outcomes.')

prop('C04', 'Continuation ends for a documented reason and makes progress',
     'A run ends as soon as, and only when, the last point has passed the target parameter value, MaxSteps points are '
     'stored, the branch has backtracked past backtrackStop, or every permitted attempt of a step has failed; no further '
     'corrector run is made after one of the first three. The number of corrector runs per step is bounded by the halvings '
     'down to dsmin plus the FracLam alternatives, and once failures stop the run goes on and reaches the target.',
     ['fault_sequences', 'configurations', 'histories'],
     'all corrector failure patterns including permanent and transient ones, both directions of the parameter, folded and '
     'monotone branches',
     'Termination and liveness under failure need failure sequences that tests never generate; tests only run to the end.',
     [CONT],
     [('loop condition and final-failure break', CONT + ':Continuation.continuation'),
      ('bounded retry loops', CONT + ':Continuation.continuation')],
     ['returned rows', 'solver calls', 'event budget'],
     note='Event budgets turn non-termination into a violation; liveness = target reached within the budget after the '
          'last injected failure.')

prop('C05', 'Branch traversal never reverses and directions are forward tangents',
     'Along a connected solution branch (folds included) successive delivered points always move forward, from the start '
     'towards the target, whatever attempts fail in between, provided steps are small against the branch curvature. The '
     'direction delivered with a point, and the one in the final call, is tangent in physical coordinates to the branch at '
     'the point the step started from (the last point, for the final call), oriented forward, and of unit length in the '
     'conditioned arclength norm while stepping.',
     ['fault_sequences', 'inputs', 'configurations'],
     'all branches of the generated families (monotone, cubic fold, multiple folds; 1-5 unknowns, mixed units), all '
     'corrector failure patterns, FracLam switches and conditioning modes',
     'Direction reversal typically follows a particular failed/retried step or conditioning change near a fold; tests '
     'traverse a few fixed branches without failures.',
     [CONT],
     [('predict: null vector and sign rule', CONT + ':Continuation.predict'),
      ('previous point/direction bookkeeping', CONT + ':Continuation.continuation')],
     ['callback arguments', 'returned rows'],
     note='Points are mapped back to the closed-form branch parameter; monotonicity and tangency are exact statements there.')

SOLV = 'tmdsimpy/jax/solvers.py'

prop('S01', 'Nonlinear solver reports success only when a configured tolerance is met',
     'nsolve of the configurable solver reports success exactly when the last iteration met one of the stopping tolerances '
     '(step, residual, energy, absolute or relative to the first iteration; energy ones from the second iteration on), or '
     'when max_steps iterations were made and an accepting tolerance was met; it stops at the first iteration that meets a '
     'stopping tolerance. A non-finite residual, Jacobian or step ends the solve as unsuccessful, and a success never '
     'carries a non-finite solution. The residual returned is the one of the last iteration, and the xtol argument '
     'replaces the configured value for that call only.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all sequences of residual and Jacobian values (NaN, infinite, perturbed, sign-flipped included) and failing linear '
     'solves, over all tolerance sets, reform frequencies, line-search settings and iteration limits',
     'Tests check that benign problems converge; whether the success flag is right when evaluations go bad at a given '
     'iteration, or for each of 6x6 tolerance combinations, needs scripted evaluation histories.',
     [SOLV, 'tmdsimpy/solvers.py'],
     [('_check_convg and its two callers', SOLV + ':NonlinearSolverOMP.nsolve'),
      ('NaN / non-finite breaks', SOLV + ':NonlinearSolverOMP.nsolve'),
      ('hybr wrapper re-evaluates at X', 'tmdsimpy/solvers.py:NonlinearSolver.nsolve')],
     ['returned (X, R, dRdX, sol)', 'evaluations made through the injected residual function'],
     note='All norms are recomputed from the evaluations the solver made; calls closer than rounding to a tolerance are '
          'not judged.')

prop('S02', 'Newton/BFGS cadence, steps, counts and settings are exact across solves',
     'The Jacobian is evaluated exactly on every reform_freq-th iteration; those iterations step by the Newton step and the '
     'ones between by the BFGS step built from that Jacobian and the steps and residual changes since. No more than '
     'max_steps iterations are made and the reported nfev and njev are the evaluations made (line search apart). The '
     'initial guess and the solver settings (edit_config changes apart) are unchanged by any solve, also when the residual '
     'raises, so that a solver object used before behaves as a new one with the same settings.',
     ['inputs', 'fault_sequences', 'histories', 'configurations'],
     'all histories of solves, faults, exceptions and edit_config calls on one solver object; all reform frequencies, '
     'line-search settings and problem sizes',
     'Tests solve a few problems and compare the final answer; a wrong quasi-Newton update or leftover state still '
     'converges on them.',
     [SOLV],
     [('bfgs_ind cadence and two-loop recursion', SOLV + ':NonlinearSolverOMP.nsolve'),
      ('edit_config / set_config', SOLV + ':NonlinearSolverOMP'),
      ('nfev, njev counters', SOLV + ':NonlinearSolverOMP.nsolve')],
     ['evaluation log', 'solver.config', 'returned sol dictionary'],
     note='Reference: Newton steps and a dense inverse-BFGS matrix computed in the harness from the recorded evaluations; '
          'ill-conditioned updates are skipped.')

prop('S03', 'Line search takes a tested fraction of the step under its stated rule',
     'With line search on, each iteration moves by alpha times the full step with 0 < alpha <= 1. The full step is tried '
     'first and kept when R.dX keeps its sign over it (or, without the same-sign rule, when it meets the line-search '
     'tolerance); otherwise at most line_search_iters bisections follow, ending early only when the tolerance is met. The '
     'alpha used is one that was tried; under the same-sign rule it does not change the sign of R.dX if any tried fraction '
     'keeps it. Line search evaluates residuals only, on the segment between 0 and the full step, and tolerances use the '
     'unshortened step.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all residual functions and starts, evaluation faults inside the search, iteration limits, tolerances and sign rules',
     'Tests contain two line-search problems; the bisection branches depend on sign patterns they do not produce.',
     [SOLV],
     [('line_search', SOLV + ':NonlinearSolverOMP.line_search'), ('use of alpha', SOLV + ':NonlinearSolverOMP.nsolve')],
     ['evaluation log', 'line_search result', 'iterates'],
     note='Judged from the evaluation log only.')

UCON = 'tmdsimpy/utils/continuation.py'

prop('P01', 'Saved solutions survive a crash at any instant',
     'While continuation_save runs, a process killed between or inside any two file operations, a power failure, or a '
     'concurrent reader always finds under the given name (with .npz added when missing) a complete archive with the arrays '
     'XlamP and dirP_prev whose rows are the points saved so far in order, bit for bit: after a kill all points whose save '
     'returned plus at most the one in progress, after a power failure a prefix of them that keeps everything an earlier '
     'process left on disk. Saving after a restart appends to what is there; other runs saving in the same folder are not '
     'affected.',
     ['crash_points', 'histories', 'schedules', 'inputs'],
     'all kill, torn-write and power-loss points of all sequences of saves and restarts, all array contents (NaN, inf, '
     'denormals), name forms (text, Path, relative, without extension) and reader positions',
     'A test saves and loads; it cannot stop the process inside the save or read at each intermediate state of the file.',
     [UCON],
     [('continuation_save: load, append, temporary file, fsync, replace', UCON + ':continuation_save')],
     ['directory contents after every file operation', 'numpy.load of the file'],
     note='Every file operation passes an LD_PRELOAD seam; every operation boundary of every run is a simulated kill point, '
          'plus seeded torn writes and power-loss states.')

prop('P02', 'Saving reports I/O errors, keeps earlier points and recovers',
     'Whatever file operation of continuation_save fails (open, read, write, disk full, fsync, rename, close), is '
     'interrupted or transfers fewer bytes than asked, the call either returns with the point stored or raises; it never '
     'returns without having stored the point, never loses or alters points saved earlier in this or another file, and '
     'once the fault is gone the next save succeeds and appends. Arguments are not modified and no file stays open.',
     ['fault_sequences', 'histories', 'inputs'],
     'all sequences of saves and I/O faults at any operation, transient or lasting',
     'Tests never meet a failing disk.',
     [UCON],
     [('continuation_save', UCON + ':continuation_save')],
     ['raised exceptions', 'archive contents after every call'],
     note='Errors are injected at the C library calls the real code makes.')

prop('P03', 'Summary files: one header, every row once, in order, restart-safe',
     'The five print_*_stats callbacks write one row per call with the documented quantities (frequency in Hz, force '
     'scalings, damping fraction, harmonic amplitude of the recovered degree of freedom at the requested derivative order) '
     'under a header written once at the top with as many columns as the rows. Rows of earlier calls and earlier runs are '
     'never altered, lost, repeated or reordered, whatever process restarts, kills inside a write or I/O errors happen; an '
     'interrupted write costs at most its own row and leaves the following rows on lines of their own.',
     ['crash_points', 'fault_sequences', 'histories', 'inputs'],
     'all sequences of rows, restarts, kills, torn writes and I/O errors; all harmonic sets, recovery vectors and orders',
     'Tests never interrupt a write or continue a file left by a killed run, and do not compare the numbers for general '
     'harmonic sets.',
     [UCON],
     [('print_epmc_stats, print_hbm_amp_stats, print_hbm_amp_phase_stats, print_vprnm_stats, print_vprnm_amp_phase_stats', UCON),
      ('_summary_file_state', UCON), ('_calc_harmonic_resp', UCON)],
     ['text of the summary file after every file operation'],
     note='Row values recomputed independently; parsing tolerates any number format with at least the present precision.')

prop('P04', 'A run killed and resumed from its saved file yields the full branch',
     'Continuation with save and summary callbacks, killed at any file operation (power failure included) any number of '
     'times and each time resumed by a new process from the last stored row, reaches the target; the stored rows are then, '
     'in order, points of the solution branch without a gap or a step backwards, rows of earlier runs are bitwise as '
     'delivered, each run starts with a NaN direction row and ends, if it was not killed, with a NaN point row, and the '
     'stored points and directions interpolate (Hermite and linear) to the branch with its true slopes.',
     ['crash_points', 'fault_sequences', 'histories', 'configurations'],
     'all kill points and kill counts over all monotone branches of the generated family, corrector failure patterns and '
     'continuation settings',
     'No test saves, kills, reloads and resumes a run, let alone at every point.',
     [CONT, UCON, 'tmdsimpy/postprocess/continuation.py'],
     [('callback protocol', CONT + ':Continuation.continuation'), ('continuation_save', UCON),
      ('hermite_interp, hermite_upsample, linear_interp', 'tmdsimpy/postprocess/continuation.py')],
     ['archive and summary file across process lives'],
     note='End-to-end composition of C02, C05 and P01-P03 against closed-form branches.')

VIB = 'tmdsimpy/vibration_system.py'
NLF = 'tmdsimpy/nlforces/'
JNL = 'tmdsimpy/jax/nlforces/'

prop('H01', 'Static hysteretic forces depend only on the committed load history',
     'The static force of every hysteretic element is the one its constitutive law gives for the load steps committed '
     '(update_hist=True or update_force_history) since the last init_history, and nothing else: trial evaluations in any '
     'number and order, evaluations that raise or are interrupted, harmonic evaluations, other elements or a second system, '
     'and later changes of arrays passed in or handed out do not change it. A commit that raises leaves the element as '
     'before or fully committed. Prestress mode is frictionless for the elements that have it and real friction returns with '
     'reset_real_mu; the force obeys the Coulomb bound, the returned stiffness is its derivative, and the system residual is '
     'the sum of linear and element forces.',
     ['histories', 'fault_sequences', 'inputs'],
     'all sequences of commits, trial evaluations, failing and interrupted evaluations, mode switches and reinitialisations '
     'over all static hysteretic force types, dimensions and amplitudes',
     'Tests follow a few fixed load paths; hidden state that leaks from a trial or failed evaluation into a later one needs '
     'a particular order of calls.',
     [VIB, NLF + 'jenkins_element.py', NLF + 'iwan4_element.py', NLF + 'vector_jenkins.py', NLF + 'vector_iwan4.py',
      JNL + 'elastic_dry_fric_2d.py', JNL + 'elastic_dry_fric_3d.py', JNL + 'roughcontact/rough_contact.py'],
     [('force / update_history / init_history of each element', NLF), ('static_res, update_force_history', VIB),
      ('set_prestress_mu, reset_real_mu', VIB)],
     ['forces and stiffnesses returned by force and static_res'],
     note='Independent constitutive models (rough contact included) run in lock step; rough contact also against fresh twins given only the '
          'committed steps.')

prop('H02', 'Harmonic force evaluation is a pure function of motion and configuration',
     'The Fourier coefficients and derivatives that aft and total_aft return are those of the steady periodic force of the '
     'constitutive law for the given motion, harmonic set, number of time steps and the configuration in force at the call '
     '(friction mode, aft initialisation), whatever was evaluated before on the object: other motions and harmonic sets, '
     'static steps, evaluations that raised or were interrupted. Local force histories recovered afterwards belong to the '
     'same periodic solution, the total is the sum over elements, and neither arguments nor earlier results are changed.',
     ['histories', 'fault_sequences', 'inputs', 'configurations'],
     'all sequences of harmonic, static, failing and interrupted evaluations and configuration changes over all force types, '
     'harmonic sets and amplitudes',
     'Tests evaluate a few motions on fresh objects; a cached or left-over state only shows in a particular call sequence.',
     [VIB, NLF, JNL, 'tmdsimpy/postprocess/harmonic.py', 'tmdsimpy/utils/harmonic.py'],
     [('aft of each force', NLF), ('static-argument caches of the JAX forces', JNL), ('total_aft, set_aft_initialize', VIB),
      ('local_harmonic_forces', 'tmdsimpy/postprocess/harmonic.py')],
     ['values returned by aft, total_aft, local_harmonic_forces'],
     note='Independent time-domain models and quadrature; derivatives by finite differences away from kinks.')

prop('V01', 'Residual methods evaluate the documented equations in any history',
     'Each residual method of VibrationSystem (hbm_res, hbm_res_dFl, epmc_res, hbm_base_res, hbm_amp_control_res, '
     'hbm_amp_phase_control_res, hbm_amp_phase_control_dA_res, vprnm_res, vprnm_amp_phase_res, static_res) returns the '
     'documented equations for the mass, stiffness, damping and nonlinear forces configured at the call, with derivatives '
     'that match them, whatever evaluations of any kind, failures, interruptions and configuration changes (set_new_C, '
     'set_prestress_mu, reset_real_mu, set_aft_initialize, add_nl_force) came before and whatever other systems share its '
     'matrices or forces; arguments and system matrices are not modified.',
     ['histories', 'fault_sequences', 'inputs', 'configurations'],
     'all sequences of evaluations, faults and configuration changes; all harmonic sets, constraint orders, filters and '
     'combinations of force types',
     'Tests check each residual once on a fresh system against finite differences of itself, so a wrong but consistent '
     'equation or a history-dependent one passes.',
     [VIB, NLF, JNL, 'tmdsimpy/utils/harmonic.py'],
     [('residual methods', VIB), ('set_new_C and mode switches', VIB), ('harmonic_stiffness', 'tmdsimpy/utils/harmonic.py')],
     ['values returned by the residual methods'],
     note='Equations of motion restated independently from the documentation; derivatives against differences of the '
          'independent equations.')

EALL = [VIB, CONT, 'tmdsimpy/jax/solvers.py', 'tmdsimpy/solvers.py', NLF, JNL, 'tmdsimpy/utils/harmonic.py']

prop('C06', 'An aborted analysis leaves nothing behind in the objects it used',
     'After a continuation analysis has been ended at any moment by an exception or an interrupt (in the residual, a '
     'nonlinear force, the linear algebra, a callback or between any two lines of the library), running the same analysis '
     'again with the same system, nonlinear forces, solver and Continuation objects delivers bit for bit the points and '
     'directions that fresh objects deliver. The same holds for repeating an analysis that completed. The start values, '
     'conditioning vector, settings and matrices that were passed in are unchanged in every case.',
     ['crash_points', 'fault_sequences', 'histories'],
     'all points at which an exception can strike during an analysis, repeated aborts, other use of the objects in between, '
     'all analysis types, force types, conditioning and corrector settings',
     'No test aborts an analysis or repeats one on used objects; what remains in mutable solver, force and continuation '
     'state is invisible until then.',
     EALL,
     [('mutable state of a run', CONT + ':Continuation.continuation'), ('configuration of a solve', 'tmdsimpy/jax/solvers.py:nsolve'),
      ('history variables of the forces', NLF)],
     ['callback arguments and return values of the runs'],
     note='Every life is compared bit for bit with a run on fresh objects in the same process; bit equality is possible '
          'because heap alignment, threads and hash seeds are fixed by the simulator.')

prop('C07', 'Activities in one process do not influence each other',
     'An analysis gives the same points whether or not its system, nonlinear forces and solver are used for other '
     'legitimate evaluations from within its residual function or callbacks. Independent activities in one process '
     '(analyses, frequency responses, eigenvalue and nonlinear solves, interpolation, reduced-order models, summary and '
     'save files), interleaved in any way between threads and sharing only read-only inputs such as configuration '
     'dictionaries, lists and scaling vectors, each give the results they give alone in a new process. Shared inputs are '
     'not modified.',
     ['schedules', 'histories', 'configurations'],
     'all interleavings of two to five activities at line granularity, all nested evaluations during an analysis, all '
     'combinations of activity types',
     'Tests run one activity at a time; module-level or class-level state, mutable default arguments and shared lists only '
     'show when two uses alternate in one process.',
     EALL + ['tmdsimpy/utils/continuation.py', 'tmdsimpy/postprocess/continuation.py', 'tmdsimpy/roms/epmc.py'],
     [('configuration handling of solver and continuation', CONT + '; tmdsimpy/jax/solvers.py'),
      ('default arguments', 'tmdsimpy/solvers.py:NonlinearSolver.eigs'), ('force objects', NLF)],
     ['results of each activity'],
     note='A baton scheduler decides every thread switch from the seed; outcomes are compared bit for bit with solo runs, '
          'and in part of the runs with a new interpreter.')

EOVER = ['fault_sequences', 'crash_points', 'inputs', 'configurations']
EQUANT = ('all sequences of failed, NaN or wrong-derivative evaluations, aborts with restarts from the last delivered point and '
          'interleaved other evaluations, over random systems, force types, harmonic sets, control targets and solver settings')
EWHY = ('Tests follow a few fault-free curves and compare with stored or analytic values at some points; they never lose an '
        'evaluation, abort and restart.')

prop('E01', 'Frequency and force response points solve the equations of motion',
     'Every point delivered by a frequency response (forced or base-excited) or force response analysis is a '
     'harmonic-balance solution of the equations of motion with the given matrices, constitutive laws and excitation, and '
     'every prediction direction is tangent to the curve, under any pattern of failed, non-finite or inaccurate evaluations, '
     'aborts and restarts from the last delivered point, and unrelated use of the objects. On a linear system a fault-free '
     'run reaches its target parameter or its maximum number of points.',
     EOVER, EQUANT, EWHY, EALL,
     [('hbm_res, hbm_base_res, hbm_res_dFl', VIB), ('continuation', CONT), ('nsolve', 'tmdsimpy/jax/solvers.py')],
     ['callback arguments', 'return value of the analysis'],
     note='Independent time-domain force models and equations of motion judge every delivered point.')

prop('E02', 'EPMC backbone points are nonlinear normal modes of the system',
     'Every point delivered by a modal backbone (EPMC) analysis satisfies the equations of motion of the self-excited '
     'system at its amplitude with its frequency and damping, with mass-normalised mode and the phase condition fulfilled, '
     'and every prediction direction is tangent to the backbone, under any pattern of failed evaluations, aborts, restarts '
     'and unrelated use of the objects.',
     EOVER, EQUANT, EWHY, EALL,
     [('epmc_res', VIB), ('continuation', CONT), ('nsolve', 'tmdsimpy/jax/solvers.py')],
     ['callback arguments', 'return value of the analysis'],
     note='Independent time-domain force models and equations of motion judge every delivered point.')

prop('E03', 'Shooting solutions are periodic motions of the system',
     'Every point delivered by a shooting analysis is a state that the equations of motion with all of the nonlinear forces '
     'of the system carry back to itself after one excitation period, and the time histories computed from it stay on that '
     'motion, under any pattern of failed evaluations, aborts, restarts and unrelated use of the objects. The reported '
     'stability (largest Floquet multiplier) is that of the periodic motion.',
     EOVER, EQUANT, EWHY, EALL + ['tmdsimpy/postprocess/shooting.py'],
     [('shooting_res', VIB), ('time_stability', 'tmdsimpy/postprocess/shooting.py'), ('continuation', CONT)],
     ['callback arguments', 'values returned by time_stability'],
     note='Independent high-order time integration judges every delivered point, within the discretisation error of the '
          'Newmark scheme at the chosen time step.')

prop('E04', 'Amplitude and phase controlled responses meet their targets exactly',
     'Every point delivered by an amplitude-controlled, amplitude-and-phase-controlled or amplitude-stepping analysis '
     'solves the equations of motion with the force it reports, and the controlled displacement, velocity or acceleration '
     'has the prescribed amplitude and phase, under any pattern of failed evaluations, aborts, restarts and unrelated use '
     'of the objects. Static forces are not scaled by the control.',
     EOVER, EQUANT, EWHY, EALL,
     [('hbm_amp_control_res, hbm_amp_phase_control_res, hbm_amp_phase_control_dA_res', VIB), ('continuation', CONT)],
     ['callback arguments', 'return value of the analysis'],
     note='Independent time-domain force models and equations of motion judge every delivered point.')

prop('E05', 'Superharmonic resonance tracking stays on the resonance condition',
     'Every point delivered by a superharmonic resonance tracking analysis (VPRNM), with fixed or amplitude-and-phase '
     'controlled excitation, solves the equations of motion with the force it reports and satisfies the phase condition of '
     'the tracked superharmonic response against the internal force that excites it, filtered or not, under any pattern of '
     'failed evaluations, aborts, restarts and unrelated use of the objects.',
     EOVER, EQUANT, EWHY, EALL,
     [('vprnm_res, vprnm_amp_phase_res', VIB), ('continuation', CONT)],
     ['callback arguments', 'return value of the analysis'],
     note='Independent time-domain force models and the documented phase condition judge every delivered point.')

EPM, VPM = 'tmdsimpy/roms/epmc.py', 'tmdsimpy/roms/vprnm.py'
prop('E06', 'Reduced-order models stay on the stored backbone they are given',
     'On any stored backbone (also one whose producer was killed and resumed), constant_force returns exactly the frequencies at '
     'which the single nonlinear mode carries the given (physical or modal) force, with the stored frequency, damping and all '
     'harmonics rotated to the phase of the force; constant_displacement the force that holds the requested amplitude; '
     'constant_h1_displacement the superharmonic response built from the fundamental and superharmonic backbones; linear_interp '
     'and the phase utilities the documented interpolation, rotation and wrapping.  Each call depends only on its arguments, '
     'changes none of them, and holds in any unit system, after interrupted calls, reused arrays and modified results.',
     ['histories', 'crash_points', 'inputs', 'configurations'],
     'all sequences of reductions, interrupted calls, refilled arrays and kills of the producer of the backbone; all harmonic '
     'sets, numbers of DOFs, unit scales, overrides of frequency and damping and load cases',
     'Tests reduce one or two stored backbones with fixed settings and compare plots-level agreement with full simulations; '
     'they never reuse arrays, interrupt a call, change units or resume the producer.',
     [EPM, VPM, 'tmdsimpy/postprocess/continuation.py', 'tmdsimpy/utils/harmonic.py', 'tmdsimpy/utils/continuation.py'],
     [('constant_force, constant_displacement', EPM), ('constant_h1_displacement', VPM),
      ('linear_interp', 'tmdsimpy/postprocess/continuation.py'),
      ('rotate_subtract_phase, shift_pm_pi, zero_crossing', 'tmdsimpy/utils/harmonic.py')],
     ['values returned by the ROM functions', 'caller arrays'],
     note='Independent restatement of the single-nonlinear-mode formulas; backbones are synthetic, so no solver is trusted.')

prop('E07', 'Linear predictions follow the configuration at the moment of the call',
     'linear_frf, linear_frf_base, eigs, predict_harmonic_solution and harmonic_wise_conditioning return the response of the '
     'linear system (proportional damping, the requested number of modes, rigid-body modes and mass coupling included), its '
     'modes, the initial guess scaled to the control target with static and superharmonic parts, and the per-harmonic '
     'conditioning vector, for the matrices and damping configured at the call, whatever damping changes, other systems, '
     'nonlinear evaluations, solves and interrupted calls came before.  No argument or system matrix is changed.',
     ['histories', 'fault_sequences', 'inputs', 'configurations'],
     'all sequences of predictions, damping changes, foreign use and interrupted calls; all sizes, mode counts, base sets, '
     'harmonic sets and control equations',
     'Tests call each function once on a fresh system with one base DOF, diagonal mass or no rigid-body mode; they never '
     'change the damping afterwards or interleave other use.',
     [VIB, 'tmdsimpy/solvers.py', 'tmdsimpy/jax/solvers.py', 'tmdsimpy/utils/harmonic.py'],
     [('linear_frf, linear_frf_base, set_new_C', VIB), ('eigs', 'tmdsimpy/solvers.py:NonlinearSolver.eigs'),
      ('predict_harmonic_solution, harmonic_wise_conditioning', 'tmdsimpy/utils/harmonic.py')],
     ['values returned by the prediction functions', 'vs.M, vs.K'],
     note='Direct solution of the complex dynamic stiffness or the independently computed modes judge every call.')

prop('H03', 'Harmonic transforms are the documented Fourier series in any call sequence',
     'For every harmonic set, number of samples and derivative order, the time series built from harmonic coefficients is the '
     'documented Fourier series (or its derivative), the coefficients recovered from a series are those of the requested '
     'harmonics only, both transforms are inverse to each other, the JAX versions equal the plain ones, and the harmonic '
     'stiffness and its frequency derivative are those of the linear equations.  No call depends on earlier or interrupted '
     'calls or on what was done with earlier results, and none changes its arguments.',
     ['histories', 'fault_sequences', 'inputs', 'configurations'],
     'all sequences of transforms, interrupted calls and modified results or arguments; all harmonic sets, sample counts, '
     'orders, sizes, integer types and scales',
     'Tests transform a few fixed signals once; derivative orders above two, sets without zeroth harmonic, other scales and '
     'repeated use of the same arrays are hardly sampled.',
     ['tmdsimpy/utils/harmonic.py', 'tmdsimpy/jax/harmonic_utils.py'],
     [('time_series_deriv, get_fourier_coeff', 'tmdsimpy/utils/harmonic.py'), ('harmonic_stiffness, Nhc', 'tmdsimpy/utils/harmonic.py'),
      ('time_series_deriv, get_fourier_coeff', 'tmdsimpy/jax/harmonic_utils.py')],
     ['values returned by the transforms', 'caller arrays'],
     note='Series and block matrices restated from the documentation.  The functions keep no state: the schedule dimension is '
          'small (interrupts, reuse of arrays), the input dimension carries the check.')
