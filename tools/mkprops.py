import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
pc='parallel_control/'
p('C01','The associative scan returns every in-order prefix (or suffix) combination',
 'For every non-empty list of elements and every associative, not necessarily commutative, combination operation, the parallel scan returns a list of the same length whose k-th entry is the left-to-right combination of the elements up to and including k, or in reverse mode of the elements from k to the end. It needs no identity element, never applies the operation to anything but input elements and their combinations, and leaves the input list unchanged.',
 ['inputs'],'every list length n >= 1, every element type, every associative operation, both directions',
 'The existing tests scan a handful of fixed lengths with one operation; an index error in the up or down sweep shows only for particular lengths that are not sampled.',
 [pc+'my_assoc_scan.py'],[('up and down sweep with None padding','my_assoc_scan.par_generic_scan'),('direction flip','my_assoc_scan.par_generic_scan reverse branch')],['return value of the scan'])
p('C02','Finite-state control: the sequential solution is optimal',
 'For every finite-state control problem with deterministic dynamics - any numbers of stages, states and controls, shared or stage-dependent dynamics and costs, with or without a discount factor - the sequential backward pass returns at every stage and state the least discounted cost-to-go over all control sequences together with a control that attains it. The forward pass from any initial state then follows that law through the dynamics, simulating the returned controls reproduces the returned states, the reported cost of a trajectory is the sum of its stage costs plus its terminal cost, and exhaustive enumeration finds the same minimum.',
 ['inputs','configurations'],'all T, Dx, Du >= 1, all dynamics tables, all finite cost tables (|cost| bounded so that totals stay below the infinity sentinel), all initial states',
 'Tests use a few fixed random problems; optimality is a for-all over control sequences and problems.',
 [pc+'fsc_np.py'],[('Bellman recursion','fsc_np.FSC.seqBackwardPass'),('rollout','fsc_np.FSC.seqForwardPass, seqSimulation'),('cost','fsc_np.FSC.cost'),('enumeration','fsc_np.FSC.batch_solution'),('expansion of shared arrays','fsc_np.FSC.checkAndExpand')],['returned control laws, value functions, trajectories, cost'])
p('C03','Finite-state control: parallel passes equal the sequential solution',
 'For every undiscounted finite-state control problem whose costs stay far below the infinity constant 1e20 the parallel backward pass returns the same value functions as the sequential backward pass and control laws that attain them, and the parallel forward pass returns exactly the trajectory the sequential forward pass produces under the same control law. The parallel forward-backward passes return, at every time, a state that lies on an optimal trajectory from the given initial state and the control of the given law in that state, hence the sequential trajectory whenever the optimal state is unique.',
 ['inputs','configurations'],'all T, Dx, Du >= 1, all dynamics and cost tables far below 1e20 in magnitude, all initial states',
 'Tests compare the two on a few fixed problems; equality for all horizons and cost tables (including unreachable states) is a universal statement.',
 [pc+'fsc_np.py',pc+'my_assoc_scan.py'],[('min-plus combination','fsc_np.combine_V'),('function composition','fsc_np.combine_f'),('initialisation and extraction','fsc_np.FSC.parBackwardPass_init/_extract, parForwardPass_*, parFwdBwdPass_*, parFwdBwdPass2_*')],['returned control laws, value functions, trajectories'])
p('C04','Finite-state control in TensorFlow: same optimal values, laws and trajectories',
 'For every undiscounted finite-state control problem given as stacked arrays, the TensorFlow sequential and parallel backward passes return at every stage and state the least cost-to-go and a control attaining it, and the sequential and parallel forward passes return the trajectory of the given control law from the given initial state. The parallel forward-backward passes return at every time a state on an optimal trajectory with the control of the given law, provided the horizon fits the stated maximum parallelism.',
 ['inputs','configurations'],'all T, Dx, Du >= 1 with T+1 <= the maximum parallelism, all tables, all initial states',
 'Tests use one or two fixed random problems at one horizon.',
 [pc+'fsc_tf.py'],[('Bellman scan','fsc_tf sequential passes'),('min-plus scan','fsc_tf combine and parallel passes')],['returned tensors'])
p('C05','Viterbi: every variant returns a maximum a posteriori state sequence',
 'For every hidden Markov model with strictly positive prior, transition and emission probabilities and every observation sequence, the reference, log-domain, backward-forward and forward-backward Viterbi routines return a state sequence with the largest posterior probability among all state sequences of that length, in time order (the forward-backward routine whenever that sequence is unique; the probability-domain reference as long as the joint probabilities stay representable in floating point). The reported optimal log-probabilities or costs equal those of that sequence, and the equivalent finite-state control problem assigns every trajectory a cost equal to minus its log joint probability.',
 ['inputs','configurations'],'all sequence lengths T >= 1, numbers of states and symbols, all positive probability tables, all observation sequences',
 'Tests check a few fixed models; ties, long sequences and particular tables are not sampled.',
 [pc+'viterbi_np.py',pc+'fsc_np.py'],[('forward max-product recursion and backtracking','viterbi_np.ref_viterbi*'),('conversion to a control problem with time reversed','viterbi_np.getFSC'),('parallel variants','viterbi_np.parBwdFwdViterbi, parBwdFwdBwdViterbi')],['returned state sequence and value'])
p('C06','Viterbi in TensorFlow: every variant returns a maximum a posteriori sequence',
 'For every hidden Markov model with strictly positive probabilities whose most probable state sequence is unique and every observation sequence, each TensorFlow Viterbi routine - sequential, parallel backward-forward, parallel forward-backward and path-based - returns that sequence, in time order, with its minus log joint probability where a value is reported. The result does not depend on the blocking or maximum-parallelism setting as long as the sequence fits it.',
 ['inputs','configurations'],'all sequence lengths, numbers of states and symbols, positive probability tables, observation sequences, parallelism settings that fit',
 'Tests use one fixed model and a few observation sequences.',
 [pc+'viterbi_tf.py',pc+'fsc_tf.py'],[('max-sum scans','viterbi_tf')],['returned tensors'])
p('C07','Linear-quadratic tracking: the sequential solution is optimal',
 'For every linear-quadratic tracking problem with time-varying affine dynamics, cross terms and output maps for which each stage control Hessian is positive definite, the sequential backward pass returns the quadratic cost-to-go of the Bellman recursion and the minimising affine control law at every stage, also for the regulator special case and for the routine that first removes cross terms. The forward pass and the simulator follow the dynamics exactly, the batch least-squares routine gives the same optimal trajectory, and the reported cost equals the sum of the stage costs and the terminal cost.',
 ['inputs','configurations'],'all horizons T >= 1, state/control/output dimensions, all problem matrices in exact arithmetic',
 'Tests compare values on a few fixed random problems of one size; the recursion must hold for every matrix, size and horizon.',
 [pc+'lqt_np.py'],[('Riccati recursion','lqt_np.LQT.seqBackwardPass, LQR.seqBackwardPass'),('rollout','lqt_np.LQT.seqForwardPass, seqSimulation'),('cost','lqt_np.LQT.cost'),('batch','lqt_np.LQT.batchSolution'),('change of variables','lqt_np.LQT.seqTransformedBackwardPass'),('stationary solutions','lqt_np.LQR.lqrIter, lqrDare')],['returned gains, value functions, trajectories, cost'])
p('C08','Linear-quadratic tracking: parallel passes equal the sequential solution',
 'For every such problem the parallel backward pass returns the same gains, offsets and value functions as the sequential one, the parallel forward pass returns the same states and controls as the sequential forward pass for any given control law, and both parallel forward-backward passes return the optimal trajectory when given the optimal law and value functions. Combining conditional value elements eliminates the intermediate state exactly and is associative, and the doubling iteration equals the corresponding number of Riccati steps.',
 ['inputs','configurations'],'all horizons T >= 1, dimensions, and problem matrices (exact arithmetic, positive definite stage Hessians)',
 'Tests compare sequential and parallel results on a few fixed problems; an error in a term that vanishes on those problems or at other horizons is not seen.',
 [pc+'lqt_np.py',pc+'my_assoc_scan.py'],[('conditional value element combination','lqt_np.combine_abcej'),('affine map combination','lqt_np.combine_fc'),('initialisation and extraction','lqt_np.LQT.par*_init/_extract, LQR.par*'),('doubling','lqt_np.LQR.lqrDouble')],['returned gains, value functions, trajectories'])
p('C09','TensorFlow linear-quadratic tracking equals the optimal solution',
 'For every stacked linear-quadratic tracking problem the TensorFlow sequential and parallel backward passes return the Bellman value functions and optimal gains, the sequential and parallel forward passes follow the dynamics under the given law, and the parallel forward-backward passes return the optimal trajectory. Converting a general problem to canonical form and back preserves the optimal trajectory, the reported cost is the sum of stage and terminal costs, and conversion of per-stage lists to stacked arrays keeps every entry in order.',
 ['inputs','configurations'],'all horizons that fit the maximum parallelism, all dimensions, all problem matrices (exact arithmetic, positive definite stage Hessians)',
 'Tests compare with the reference implementation on a few fixed problems.',
 [pc+'lqt_tf.py'],[('Riccati scan','lqt_tf sequential passes'),('element combination','lqt_tf combination and parallel passes'),('canonical form','lqt_tf.lqt_gen_to_canon, lqt_canon_to_gen')],['returned tensors'])
p('C10','Partial condensing gives an equivalent, smaller problem',
 'For every tracking problem in the supported class and every block length, the condensed problem has one stage per block (the last block padded with trivial stages) and, along any controls, its stage dynamics reproduce the original state at every block boundary and its stage costs reproduce, up to a constant independent of state and control, the summed original stage costs of the block. Solving the condensed problem and expanding its solution therefore gives, in order and without padding, the optimal controls and states of the original problem.',
 ['inputs','configurations'],'all horizons, block lengths (dividing the horizon or not), dimensions and matrices in the supported class',
 'Tests use a few fixed block lengths and matrices.',
 [pc+'condensing_np.py',pc+'condensing_tf.py'],[('block matrices','condensing_np'),('expansion','condensing_np conversion back')],['condensed matrices and recovered trajectories'])
p('C11','Continuous-time tracking: sequential and parallel passes solve one equation',
 'For every continuous-time linear-quadratic regulator or tracker and every grid, the sequential backward pass takes at every step one classical fourth-order step (or the exact step where offered) of the Riccati equations with the right end condition, and returns the matching gains, and the forward pass integrates the closed-loop dynamics under those gains in order. The parallel passes integrate, block by block, exactly the differential equations whose solutions combine by the conditional-value rule, return the same number of grid points in the same order, and agree with the sequential pass up to integration error.',
 ['inputs','configurations'],'all block and step counts, dimensions, time-varying coefficients and options',
 'Tests compare trajectories for a few fixed models with loose tolerances, which hide wrong times, missing terms that vanish there, and off-by-one grids.',
 [pc+'clqt_np.py',pc+'diffeq_np.py'],[('vector fields','clqt_np.CLQR/CLQT *_ode_f'),('grids','clqt_np seq*/par*')],['returned gains, value functions, trajectories'])
p('C12','Continuous-time tracking in TensorFlow solves the same equations',
 'For every continuous-time linear-quadratic tracker and every grid (with a block count within the stated maximum parallelism), the TensorFlow sequential and parallel backward and forward passes integrate the same Riccati, conditional-value and closed-loop equations with the same end conditions, times and ordering as the reference formulation, and agree with it up to integration error.',
 ['inputs','configurations'],'all block and step counts, dimensions and time-varying coefficients',
 'Tests compare a few fixed models.',
 [pc+'clqt_tf.py',pc+'diffeq_tf.py'],[('vector fields','clqt_tf *_ode_f'),('scans','clqt_tf seq*/par*')],['returned tensors'])
p('C13','Parareal: after as many iterations as blocks the result equals the fine solution',
 'For every continuous-time tracker and every block and step count, the parareal backward and forward passes have, after k iterations, the k block boundaries nearest the end they start from (the terminal end for backward passes) exactly equal to those of the fine sequential solver over the same fine grid, so after as many iterations as there are blocks the whole result equals the fine sequential result. The returned lists or tensors have one entry per fine grid point in time order.',
 ['inputs','configurations'],'all numbers of blocks, fine and coarse steps, iterations, coefficients',
 'Tests compare with loose tolerances after a fixed number of iterations for one model.',
 [pc+'parareal_clqt_np.py',pc+'parareal_clqt_tf.py'],[('correction iteration','parareal_clqt_np'),('vectorised iteration','parareal_clqt_tf')],['returned gains, value functions, trajectories'])
p('C14','Integrators and discretisations are exact instances of their defining formulas',
 'For every vector field, step and optional parameters the integrator returns the classical fourth-order Runge-Kutta step with stage times t, t+dt/2, t+dt/2, t+dt, so it is exact for time polynomials up to degree three. For every linear system, step and zero-order-hold input the discretisation returns the transition matrix, input matrices and noise covariance of the exact matrix-exponential solution.',
 ['inputs','configurations'],'all dimensions, all vector fields and matrices, all steps, all call forms',
 'Tests evaluate a few matrices; the formulas must hold for all call forms and systems, including integer-valued matrices.',
 [pc+'diffeq_np.py',pc+'diffeq_tf.py',pc+'disc.py'],[('Runge-Kutta step','diffeq_np.rk4, diffeq_tf'),('block matrix exponentials','disc.lti_disc, disc.lti_disc_u')],['return values'])
p('C15','Nonlinear tracking: linearisation and iteration are exact at every trajectory',
 'For every differentiable nonlinear model and nominal trajectory, the linearised problem handed to the linear solver has the exact first-order expansion of the dynamics at every nominal point, so a nominal trajectory that satisfies the dynamics is reproduced by the linearised dynamics with zero defect. Each iteration, sequential or parallel, returns the optimal controls and states of that linearised tracking problem from the nominal initial state, and leaves the tracking costs and the nominal trajectory alone. Simulation returns the nonlinear trajectory under the given controls and the cost is the tracking cost along it. The analytic derivatives supplied with the bundled vehicle model, in both libraries, equal the derivatives of its dynamics everywhere.',
 ['inputs','histories'],'all models, states, controls, model parameters, nominal trajectories, horizons and parallelism limits',
 'Tests check derivatives by finite differences at a few points and compare iterations on one problem.',
 [pc+'nlqt_np.py',pc+'nlqt_tf.py',pc+'nonlinear_model_np.py',pc+'nonlinear_model_tf.py'],[('linearisation and iteration','nlqt_np.NLQT'),('analytic derivatives','nonlinear_model_np.NonlinearModel')],['linearised matrices; returned trajectories'])
p('C16','Sequential quadratic programming solves each KKT system exactly',
 'For every equality-constrained quadratic subproblem with an invertible KKT matrix the KKT solver returns the step and multipliers satisfying stationarity G x - A\' lam = -c and the linearised constraints A x = b exactly (alone or in a batch). For every smooth objective and constraint and every start, each iteration of the equality-constrained optimisers moves the iterate by the solution of the KKT system formed from the Hessian of the Lagrangian at the current iterate and multipliers, the gradient of the objective, the Jacobian and minus the value of the constraints there, with exact derivatives, and replaces the multipliers by those of the subproblem; the first multipliers are zero. The returned iterate, constraint residual criterion and iteration count belong to the last iteration, and iterations stop only when the gradient-of-Lagrangian criterion falls to the tolerance or the iteration limit is reached. Both quasi-Newton updates return a symmetric matrix; the basic update satisfies the secant equation, the damped update satisfies the documented damped secant equation (equal to the basic one when the curvature condition holds) and stays positive definite. The direct-shooting conversions of a grid control problem give as objective the accumulated running and terminal cost, and as constraint the end-point miss, of the fixed-step simulation under the parametrised control, for every horizon and number of parameters.',
 ['inputs','configurations'],'all dimensions, subproblem data, programs, starts, iteration limits, tolerances, horizons',
 'Tests solve a few fixed problems to convergence: a wrong multiplier or Hessian still converges, only slower.',
 [pc+'sqp_np.py',pc+'sqp_tf.py',pc+'hjb_grid_1d_np.py',pc+'hjb_grid_1d_tf.py'],[('KKT solve','lqe_solve in sqp_np and sqp_tf'),('Newton-KKT iteration','local_eq, local_eq_fast'),('quasi-Newton updates','bfgs_basic_update, bfgs_damped_update'),('shooting form','fun_and_con_1, fun_and_con_2 in hjb_grid_1d_np and hjb_grid_1d_tf')],['returned steps, multipliers, iterates, criteria, counts, objective and constraint values'])
p('C17','Grid HJB solver: explicit finite-difference steps and ordered combination',
 'For every one-dimensional grid problem the finite-difference passes return, at every block boundary in time order, the value function after blocks times steps explicit Euler steps V + dt min_u [ L + f DV ] from the terminal cost, with central differences (one-sided at the ends) in the symmetric form and differences taken in the direction of the flow in the upwind form; the NumPy and TensorFlow passes compute the same scheme. The plain combination of two conditional value functions is the least sum over the intermediate grid point and is associative; the interpolated combination lowers that least sum to the vertex of the parabola through the minimiser and its two neighbours, makes no correction where the minimiser is an end of the grid or the neighbours are flat, and is finite for finite input. The sequential associative pass is the right fold of the block table onto the terminal cost, and the parallel pass is the ordered combination, under some bracketing, of exactly these elements, so that both agree wherever the combination is associative. The bundled one-dimensional problems provide the documented dynamics, costs and grids, and the closed-form block table of the upwind problem is zero exactly for the pairs the dynamics can join.',
 ['inputs','configurations'],'all grids, control grids, numbers of blocks and steps, dynamics and cost functions, value tables',
 'Tests compare two models on one grid within loose tolerances; ties, flat minima, grid ends and other block counts are not sampled.',
 [pc+'hjb_grid_1d_np.py',pc+'hjb_grid_1d_tf.py',pc+'cnonlin_models_np.py',pc+'cnonlin_models_tf.py'],[('finite-difference passes','HJB_Grid_1d.seqBackwardPass_symfd/upwind, seq_bw_pass_symfd/upwind'),('combination','combine_V, combine_V_interp'),('passes by combination','seqBackwardPass_assoc, parBackwardPass, seq_bw_pass_assoc, par_bw_pass')],['value functions at the block boundaries, combined tables'])
p('C18','Bundled model generators produce well-formed problems and invertible encodings',
 'For every parameter setting the bundled finite-state, text and channel models return transition, emission and prior tables that are non-negative with rows summing to one and next-state tables within the state range, and text encoding followed by decoding is the identity on supported characters. The linear model generators return matrices of consistent dimensions whose dynamics and costs are those of the documented physical or tracking model.',
 ['inputs','configurations'],'all parameter settings and inputs in the documented ranges',
 'Tests construct one or two instances.',
 [pc+'text_model.py',pc+'finite_model_np.py',pc+'ge_model_np.py',pc+'linear_model_np.py',pc+'mass_model_np.py'],[('table construction','finite_model_np, text_model, ge_model_np'),('matrix construction','linear_model_np, mass_model_np')],['returned tables and matrices'])
p('C19','Problem constructors expand shared parameters and reject inconsistent ones',
 'For every combination of per-stage lists and shared single parameters the discrete-time problem constructors produce an equivalent per-stage problem in which every list has one entry per stage, shared parameters are repeated unchanged and omitted optional parameters take their documented neutral defaults. Every set of parameters whose list lengths or dimensions are inconsistent is rejected with an error instead of being silently broadcast or truncated.',
 ['inputs','configurations'],'all horizons, all choices of list or shared form per parameter, all dimension and length mismatches',
 'Tests try a few mismatches; the number of combinations is large.',
 [pc+'lqt_np.py',pc+'fsc_np.py'],[('validation','lqt_np.LQT.checkAndExpand'),('expansion','fsc_np.FSC.checkAndExpand')],['constructed problem; raised errors'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
