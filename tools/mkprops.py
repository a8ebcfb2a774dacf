"""Writes properties.jsonl (the source of the property texts)."""
import json, os
N = "neural_network_lyapunov/"
P = []


def p(i, title, st, over, q, why, files, mech, obs=None):
    P.append({"id": i, "title": title, "statement": st,
              "quantifier": {"over": over, "text": q},
              "why_tests_cant": why,
              "anchors": {"files": [N + f for f in files],
                          "mechanism": [{"name": a, "where": N + b}
                                        for a, b in mech],
                          **({"observe_at": obs} if obs else {}),
                          "hook_needed": None}})


INP = ["inputs"]
IP = ["inputs", "programs"]
NOGRB = ("The repository's tests of this part need a commercial solver and "
         "sample a handful of points; ")

p("P01", "ReLU network encoding is exact",
  "For every ReLU or leaky-ReLU network and every input in the declared box, the mixed-integer constraints built for the network are feasible with the input fixed, and every feasible completion has exactly the network's output as its output. This holds for each way of computing neuron bounds, with or without biases, for single-unit layers and for neurons that are always on or always off.",
  IP, "all inputs in the box, all completions of slack and binary variables; networks over a family of layer widths, slopes, biases and bound methods",
  NOGRB + "exactness quantifies over all completions of the slack and binary variables.",
  ["relu_to_optimization.py", "relu_to_optimization_utils.py", "utils.py"],
  [("output_constraint and per-layer neuron constraints", "relu_to_optimization.py:777"), ("constraints by layer", "relu_to_optimization_utils.py:83")])
p("P02", "Neuron and range bounds contain every reachable value",
  "Every lower/upper bound the library computes - through a linear or ReLU layer, for each neuron of a network, for the network output, for an affine map over a polytope or for an index of a polytope - contains the value taken at every admissible input. For an affine layer over a box and for a polytope the bounds are attained.",
  IP, "all inputs in the box, all layer weights within bounds, networks of several shapes",
  NOGRB + "tests sample inputs and cannot show that no input escapes the bounds.",
  ["mip_utils.py", "relu_to_optimization.py", "utils.py"],
  [("interval arithmetic", "mip_utils.py:413"), ("bound propagation", "mip_utils.py:470"), ("LP ranges", "mip_utils.py:332"), ("leaky relu interval", "utils.py:898")])
p("P03", "Elementary mixed-integer gadgets are exact",
  "The constraint sets for the product of a binary and a bounded variable, ReLU, leaky ReLU, leaky-ReLU slope times input, absolute value, maximum, input saturation and the boundary of a box admit exactly the graph of the function they stand for: every point of the graph is feasible with a binary choice, and every feasible point with a binary choice lies on the graph. Bounds that settle the case in advance (one-sided intervals) give the same graph.",
  INP, "all interval end points, slopes and limits within bounds, all variable values, both binary values",
  "Tests check sampled points with fixed end points; exactness quantifies over end points, points and binaries.",
  ["utils.py"],
  [("binary times continuous", "utils.py:38"), ("max", "utils.py:71"), ("absolute value", "utils.py:160"), ("relu", "utils.py:358"), ("saturation", "utils.py:444"), ("box boundary", "utils.py:1516")])
p("P04", "Strengthening cuts never remove an integer-feasible point",
  "Every inequality added to strengthen the relaxation of a ReLU unit with bounded linear input holds at every input in the box, at the unit's own output and with the binary variable telling the unit's state. The inequality generated for a given set of points is tight enough to be a valid upper envelope of the unit over the relaxation.",
  INP, "all weights, biases and boxes within bounds, all index sets, all points in the box",
  NOGRB + "a wrong cut silently removes a true counterexample only for some weights and points.",
  ["mip_utils.py", "relu_to_optimization.py"],
  [("cut by index set", "mip_utils.py:11"), ("ideal formulation cut", "mip_utils.py:219"), ("strengthen at a point", "relu_to_optimization.py:291")])
p("P05", "Network gradient encodings are exact",
  "With the binary variables set to the activation of the network at an input, the encoded output gradient equals a gradient of the network at that input, and the encoded product of the gradient with a bounded vector is feasible and takes exactly the value of that product. The bounds given for that product contain it.",
  IP, "all inputs in the box, all vectors in their box, all activation patterns, networks of several shapes",
  NOGRB + "the product bounds and the big-M rows must be right for every pattern and vector.",
  ["relu_to_optimization.py"],
  [("output_gradient", "relu_to_optimization.py:917"), ("gradient times vector", "relu_to_optimization.py:1065")])
p("P06", "Activation patterns identify the affine piece and its region",
  "The activation pattern reported at an input has each unit on exactly when its pre-activation is non-negative, with every tie reported both ways when all patterns are asked for. The affine map and polytope computed from a pattern reproduce the network on the polytope, and the polytope is exactly the set of inputs with that pattern; numbering units in the binary vector and converting back are inverse to each other.",
  IP, "all inputs, all patterns, networks of several shapes including ties at zero",
  "Tests check a few networks at random inputs, where ties have measure zero.",
  ["relu_to_optimization.py"],
  [("activation patterns", "relu_to_optimization.py:17"), ("affine piece", "relu_to_optimization.py:156"), ("binary vector to pattern", "relu_to_optimization.py:98")])
p("P07", "Gradient helpers return subgradients and Minkowski sums are complete",
  "The network gradient at an input is the derivative of the active affine piece, with all limiting gradients returned at ties; the l1-norm and infinity-norm gradient helpers return exactly the vertices of the subdifferential within the tie tolerance given. Pairwise sums contain every sum of one row from each operand.",
  INP, "all inputs including ties, networks of several shapes, all tolerances within bounds",
  "Ties have measure zero for sampled inputs, yet decide the Lyapunov derivative at kinks.",
  ["utils.py"],
  [("relu_network_gradient", "utils.py:1356"), ("l1_gradient", "utils.py:1411"), ("l_infinity_gradient", "utils.py:1486"), ("minkowski_sum", "utils.py:1545")])
p("P08", "Program mirrors the solver's constraints and objective",
  "The matrices and right-hand sides kept for differentiation describe exactly the constraints handed to the solver: a point satisfies them if and only if it satisfies every constraint, sense and bound on continuous variables that was added. The optimal objective recomputed from the active rows and the binary solution equals the solver's objective and has the right gradient with respect to the data.",
  ["inputs", "histories"], "all points, coefficient values and right-hand sides, sequences of variable/constraint additions with every sense and bound combination",
  NOGRB + "equivalence quantifies over all points and over the order in which variables and constraints are added.",
  ["gurobi_torch_mip.py"],
  [("addVars", "gurobi_torch_mip.py:402"), ("addLConstr/addMConstr", "gurobi_torch_mip.py:481"), ("compute objective from active rows", "gurobi_torch_mip.py:958")])
p("P09", "Composing constraint sets preserves their meaning",
  "Placing a constraint set in a program, substituting an affine map of a new input, copying it, or stacking two sets side by side keeps the set of feasible (input, output, slack, binary) points: a point is feasible for the result if and only if its parts are feasible for the operands with the mapped inputs and outputs. Absent parts and absent bounds stay absent or unbounded.",
  ["inputs", "configurations"], "all coefficient values, all points, presence or absence of every block and bound",
  NOGRB + "there are many combinations of missing blocks and bounds, each with its own shape.",
  ["gurobi_torch_mip.py"],
  [("add to program", "gurobi_torch_mip.py:681"), ("transform_input", "gurobi_torch_mip.py:124"), ("concatenate", "gurobi_torch_mip.py:156")])
p("P10", "Network parameter vector round-trips",
  "Flattening a network's parameters and loading the vector into a network of the same structure reproduces every weight and bias, and building a network from a parameter vector assigns consecutive entries in the same order. The structure description read from a network rebuilds a network computing the same function; the flattened gradient uses the same order.",
  IP, "all parameter values; architectures over widths, slopes, bias and last-layer options",
  "Parameter order and offsets must match for every architecture; tests use one or two.",
  ["utils.py"],
  [("setup_relu", "utils.py:951"), ("update/extract", "utils.py:998"), ("structure", "utils.py:1053")])
p("P11", "Lyapunov value and positivity programs agree with the function",
  "The Lyapunov candidate is the network output relative to its value at the equilibrium plus a weighted l1 norm of the transformed state error, single or batched, and vanishes at the equilibrium. The optimum of the positivity program equals the largest violation of the positivity condition over the box (for the piecewise-linear part it encodes), and programs restricting the candidate to a level-set range have exactly the states of the box with those values as feasible states.",
  IP, "all states in the box, all completions, networks, weights and transforms over a family",
  NOGRB + "the certificate is the optimum over all states, so a wrong row invalidates it.",
  ["lyapunov.py", "barrier.py"],
  [("value", "lyapunov.py:160"), ("positivity program", "lyapunov.py:223"), ("level-set bounds", "lyapunov.py:368"), ("boundary program", "lyapunov.py:408")])
p("P12", "Discrete-time Lyapunov decrease program is exact",
  "For every state in the box whose next state is in the box the decrease program is feasible and its objective equals the decrease expression (exponential upper, exponential lower or asymptotic form) of the candidate along the closed-loop next state; a restriction to a level-set range only removes states outside it, and strengthening the program removes no state of it (no state with a non-negative value, for the strengthening on binary variables). The same expression is what evaluating the decrease at a state returns.",
  IP, "all states in the box, all completions, all three decrease forms, systems and networks over a family",
  NOGRB + "soundness of the certificate is a statement over all states and completions.",
  ["lyapunov.py"],
  [("decrease program", "lyapunov.py:575"), ("decrease at a state", "lyapunov.py:551")])
p("P13", "Continuous-time Lyapunov derivative programs are exact",
  "For every state and every choice of one-sided slope and dynamics mode, the continuous-time derivative program is feasible and its objective equals the derivative expression of the candidate along the flow; every feasible completion is such a choice (at a kink on the face of the box at least one choice remains feasible). Evaluating the derivative at a state returns exactly these values.",
  IP, "all states in the box, all completions, decrease forms, systems and networks over a family",
  NOGRB + "the derivative is set-valued at kinks, which samples never reach.",
  ["continuous_time_lyapunov.py"],
  [("control-affine system program", "continuous_time_lyapunov.py:66"), ("hybrid system programs", "continuous_time_lyapunov.py:780")])
p("P14", "Sample losses are the hinge of the certificate condition",
  "The loss at sampled states of a positivity, decrease or derivative condition is the mean, maximum or weighted combination requested of the hinge of that condition with the given margin, and is zero exactly when every sample satisfies the condition with the margin. Batched evaluation agrees with one sample at a time, and different reductions are computed from the same hinges.",
  INP, "all sampled states and next states within bounds, all margins and reductions",
  NOGRB + "the loss must be zero on and only on satisfied samples for all samples, margins and reductions.",
  ["lyapunov.py", "continuous_time_lyapunov.py", "barrier.py", "utils.py"],
  [("positivity loss", "lyapunov.py:305"), ("decrease losses", "lyapunov.py:929"), ("reduction", "utils.py:1565")])
p("P15", "Region-of-attraction programs certify the level set",
  "The boundary program's optimum is the smallest candidate value on the boundary of the box, so the sublevel set below it stays inside the box. The region programs are feasible exactly at box states whose step lands outside the box within the larger box (in one or several coordinates), respectively at boundary states whose step lands in the box, with the candidate's value as objective; the region search returns at most the given level, and every box state valued below the returned level steps into the box.",
  IP, "all states in both boxes, all completions, systems and networks over a family",
  NOGRB + "the region is a universal claim over states.",
  ["lyapunov.py"],
  [("boundary program", "lyapunov.py:408"), ("region program", "lyapunov.py:1133")])
p("P16", "Hybrid linear dynamics: program, mode choice and step agree",
  "For every state (and input) the mode reported contains it, stepping applies that mode's affine map, and all possible successors are listed at mode boundaries. The mixed-integer constraints of the hybrid system are feasible exactly at points of some mode and force the next state to be that mode's image; computed bounds on mode derivatives and cost-to-go samples agree with stepping the system, and partitions of the state-input space cover it without overlapping interiors.",
  IP, "all states and inputs, all completions, systems with one to three modes",
  NOGRB + "mode boundaries and completions are universal quantifiers.",
  ["hybrid_linear_system.py", "dynamic_system.py"],
  [("constraints", "hybrid_linear_system.py:141"), ("autonomous constraints", "hybrid_linear_system.py:462"), ("step", "hybrid_linear_system.py:318"), ("cost-to-go", "hybrid_linear_system.py:659")])
p("P17", "Learned network dynamics: program and step agree",
  "For every network-based dynamics model the next state computed by stepping satisfies the model's documented formula, a batch of states is stepped like the individual states, and the declared equilibrium is a fixed point. The constraints added to a program have the stepped next state as their only feasible next state, also when a tighter range of the control is supplied.",
  IP, "all states and controls in their boxes, all completions, every model class, networks over a family",
  NOGRB + "each class has its own algebra and must agree with its own constraints at every point.",
  ["relu_system.py"],
  [("stepping", "relu_system.py:476"), ("constraints", "relu_system.py:964")])
p("P18", "Closed-loop feedback: control within limits and program equals step",
  "The feedback control lies within the actuator limits at every state and equals the controller output relative to its equilibrium value, clamped; at the equilibrium it is the equilibrium control. The closed-loop constraints in a program admit, for every state, exactly the control and next state that evaluating the controller and stepping the system give, for network and linear controllers, and computed control bounds contain the control.",
  IP, "all states in the box, all completions, network and linear controllers, limits and equilibria over a family",
  NOGRB + "saturation and bound handling have many cases that only a universal statement covers.",
  ["feedback_system.py", "utils.py"],
  [("control law", "feedback_system.py:442"), ("controller constraints", "feedback_system.py:263"), ("closed-loop constraints", "feedback_system.py:347")])
p("P19", "Control-affine systems: program and dynamics agree",
  "A control-affine system's derivative is its drift plus input matrix times the control clamped to its limits, and second-order systems return the velocity as the position derivative. The constraint sets for drift and input matrix admit exactly those values at every state, their declared ranges contain them, and placing them in a program in any of its modes gives the same values.",
  IP, "all states and controls in the box, all completions, networks over a family",
  NOGRB + "agreement of the two descriptions is a statement over all states.",
  ["control_affine_system.py"],
  [("linear system", "control_affine_system.py:106"), ("second-order system", "control_affine_system.py:143")])
p("P20", "Barrier value and derivative programs agree with the function",
  "The barrier function is the network value relative to its value at the reference state plus a constant, single or batched. The value program and the derivative program are feasible at every state of the region and box (for the derivative program: whose next state is in the box) and their objectives equal the barrier value and the barrier condition along the next state.",
  IP, "all states in the box, all completions, networks and constants over a family",
  NOGRB + "safety is a claim about all states.",
  ["barrier.py"],
  [("value", "barrier.py:58"), ("value program", "barrier.py:70"), ("derivative program", "barrier.py:157")])
p("P21", "State-error transform keeps full column rank and round-trips",
  "Each parameterisation of the state-error transform yields a matrix with the property it promises for every parameter value: the transform with a positive-definite Gram matrix bounded below by the given margin, the singular values within the prescribed bound, or the fixed or free matrix itself. Setting the parameters from a representable matrix reproduces that matrix, and parameters set directly are the ones reported.",
  INP, "all parameter values and matrices of small size within bounds",
  "A rank-deficient transform makes the candidate fail to be positive; tests check one or two matrices.",
  ["r_options.py"],
  [("parameterisations", "r_options.py:30")])
p("P22", "Line-search optimisers only accept steps of sufficient decrease",
  "A step of either line-search optimiser leaves the parameters at a point whose loss meets the sufficient-decrease test or at the last step tried when the minimum step is reached, and returns the loss it measured there; the step size is cut by the declared factor and never falls below the declared minimum. With line search trivially satisfied the update is the documented gradient-descent or Adam update, including momentum, weight decay and bias correction.",
  ["inputs", "histories"], "all parameters, gradients, hyper-parameters within bounds and all loss values returned by the closure, one to three steps",
  "Tests run one convex problem; the accepted step depends on every value the loss may take.",
  ["line_search_gd.py", "line_search_adam.py"],
  [("gradient-descent line search", "line_search_gd.py:106"), ("Adam line search", "line_search_adam.py:83"), ("Adam direction", "line_search_adam.py:114")])
p("P23", "Example plants: one dynamics, whichever interface computes it",
  "Each example plant (rocket, pendulum, planar and spatial quadrotor, unicycle, acceleration car, balanced pole) gives the same state derivative for array and tensor inputs, for one state and for a batch where offered, equal to its equations of motion. Reported Jacobians are the derivatives of the dynamics with respect to state and control, and the declared equilibrium has zero derivative.",
  INP, "all states, controls and positive physical parameters within bounds",
  "Tests check a few random states; equality must hold at every state and parameter.",
  ["examples/rocket/rocket.py", "examples/pendulum/pendulum.py", "examples/quadrotor2d/quadrotor_2d.py", "examples/quadrotor3d/quadrotor.py", "examples/car/unicycle.py", "examples/car/acceleration_car.py", "examples/pole/pole.py"],
  [("rocket", "examples/rocket/rocket.py"), ("pendulum", "examples/pendulum/pendulum.py"), ("planar quadrotor", "examples/quadrotor2d/quadrotor_2d.py"), ("quadrotor", "examples/quadrotor3d/quadrotor.py"), ("unicycle", "examples/car/unicycle.py")])
p("P24", "Roll-pitch-yaw rotation matrix is a rotation with its true derivative",
  "The matrix built from roll, pitch and yaw is the product of the three elementary rotations, hence orthogonal with determinant one, and is the same for array and tensor input. Its reported gradient is the derivative of every entry with respect to every angle.",
  INP, "all angles",
  "Tests compare random angles; the identity must hold for all.",
  ["geometry_transform.py"],
  [("rpy2rotmat", "geometry_transform.py:5"), ("gradient", "geometry_transform.py:48")])
p("P25", "Fixed-step integrator is classical Runge-Kutta with held control",
  "Integrating with constant control applies exactly the classical fourth-order Runge-Kutta map the requested number of times with the control evaluated once, at the initial state, and returns the final state and that control. Hence it is exact for dynamics polynomial in time up to degree three and agrees with the exponential series through fourth order for linear dynamics.",
  INP, "all initial states, step lengths, linear and nonlinear polynomial dynamics, up to three steps",
  "Tests compare two systems at fixed states with a loose tolerance.",
  ["integrator.py"], [("rk4_constant_control", "integrator.py:7")])
p("P26", "Image encoders and decoders are shape-consistent and ordered",
  "For every image size and latent dimension supported, encoding a batch gives a mean and a log-variance of batch by latent size that depend only on their own image, and decoding a batch of latent vectors gives images of the declared size with every pixel between zero and one. Channels, latent order and batch order are preserved.",
  ["inputs", "configurations"], "all images and weights of small models, latent and batch sizes, greyscale and colour",
  "Tests run one random image per class and look only at shapes.",
  ["encoders.py"], [("encoders and decoders", "encoders.py:65")])
p("P27", "Simulation samples and datasets are consistent trajectories",
  "A generated sample pairs two observations one time step apart, taken from the requested initial state; a rollout returns one more observation than steps, in time order; a dataset has the requested size, its initial states lie in the requested range or distribution, and each row's next observation follows its own. Image channels are normalised and ordered as documented, and regrouping a dataset into rollouts keeps consecutive steps together.",
  ["inputs", "configurations"], "all initial states, time steps and pixel values returned by the simulator, joint-space and rigid-body modes, several lengths",
  "Tests look only at shapes of one run.",
  ["pybullet_data_generation.py"],
  [("sample", "pybullet_data_generation.py:179"), ("rollout", "pybullet_data_generation.py:281"), ("dataset", "pybullet_data_generation.py:301")])
p("P28", "Piecewise-linear Lyapunov program certifies on all of each region",
  "Every solution of the piecewise-linear program is positive, decreasing and continuous on the whole polytopes whose vertices were given, not only at the vertices, with the stated margins. The constraints added are exactly these conditions at the vertices.",
  INP, "all solutions, vertices, dynamics and margins within bounds",
  NOGRB + "the conclusion is about all points of a polytope and all solutions.",
  ["simple_pwl_lyapunov.py"],
  [("derivative", "simple_pwl_lyapunov.py:75"), ("positivity", "simple_pwl_lyapunov.py:99"), ("continuity", "simple_pwl_lyapunov.py:134")])
p("P29", "Samples and projections stay where they must",
  "Uniform samples lie in the box, boundary samples lie on the boundary of the box and inside it, mesh samples cover every corner of the box in the documented order, and projecting a point on a polyhedron gives the nearest point of the polyhedron. This holds for every value the random generator may return.",
  INP, "all boxes and points within bounds, all values of the random generator in its range",
  "Rare generator values (exact zero) and degenerate boxes are not reached by a seed.",
  ["utils.py"],
  [("samples", "utils.py:1325"), ("mesh", "utils.py:1089"), ("projection", "utils.py:937")])
p("P30", "Combining two loss gradients never undoes the protected one",
  "When gradients of two losses are combined by projection, the combined gradient is the documented one for the chosen mode: both, the first kept and the second projected off it when they conflict, or the second kept and the first projected. The result never has a negative inner product with the gradient it protects, and is written to every parameter.",
  INP, "all gradient values of small networks, all modes",
  NOGRB + "conflicting and aligned gradients form open sets, and the written value must be right in all.",
  ["train_utils.py"], [("project_gradient", "train_utils.py:17")])
p("P31", "Trainer totals are the weighted certificate violations",
  "The training loss is the sum of the weighted terms that are switched on - sample losses and program optima for positivity, decrease, boundary gap and barrier conditions - and each program term reported is the optimum of its program. Convergence is declared only when every enabled program's optimum is within its tolerance, and training starts from and returns to the parameters of exactly the networks and transform that are trained. Counterexamples found by the programs join bounded sample pools (most recent kept, one per cluster when clustering is on), and training on samples ends with the parameters whose loss was best.",
  ["inputs", "configurations"], "all program optima and sample losses (replaced by arbitrary values), all weights, switches on or off",
  NOGRB + "the convergence verdict depends on every combination of switches and optima.",
  ["train_lyapunov_barrier.py"],
  [("total_loss", "train_lyapunov_barrier.py:706"), ("train", "train_lyapunov_barrier.py:889")])
p("P32", "Dynamics-learning losses and rollouts follow their definition",
  "A rollout starts at the given state and applies the learned step the requested number of times, recording every state and Lyapunov value in order; the dynamics loss is the mean squared one-step error, the latent divergence loss is the Gaussian divergence, non-negative and zero only at a standard normal, and the annealing schedule is monotone between its limits. Program and sample losses are the configured multiples of the certificate violations at the configured rates, adversarial samples are exactly the violating solutions found, and each training step follows the gradient of exactly these losses; validation reports the sample-weighted mean.",
  ["inputs", "configurations"], "all states, latent means and variances within bounds, rollout lengths, option values",
  NOGRB + "each loss must match its definition at every value.",
  ["dynamics_learning.py", "utils.py", "training_log.py"],
  [("rollout", "dynamics_learning.py:579"), ("kl loss", "dynamics_learning.py:756"), ("annealing", "utils.py:1205")])
p("P33", "Hopper model: flows, guards and gradients agree",
  "The spring-loaded hopper conserves energy along both phases' dynamics, its touchdown and liftoff maps are inverse coordinate changes preserving position and velocity, guards vanish exactly at their event, and reported gradients of the maps are their derivatives. The linear apex map is the first-order expansion of the apex map at the reference state.",
  INP, "all states and leg angles in the valid range, physical parameters within bounds",
  "Tests check a few states by numerical differences.",
  ["spring_loaded_inverted_pendulum.py", "slip_hybrid_linear_system.py"],
  [("dynamics", "spring_loaded_inverted_pendulum.py:37"), ("transitions", "spring_loaded_inverted_pendulum.py:88"), ("gradients", "spring_loaded_inverted_pendulum.py:323")])
p("P34", "Simulation, fitting and polytope helpers do what they document",
  "Stepping a system returns the start followed by each successor; simulating a plant with a network controller integrates, from the given state over the given span, the plant driven by the saturated network output relative to its equilibrium value plus the equilibrium control. Fitting a network to data takes one optimiser step per training batch, along the gradient of the mean squared error of the given output function in the network and the additional variables, and never trains on the samples held out. Numerical gradients are exact for quadratic functions and leave their arguments unchanged; a polyhedron is reported bounded exactly when it has no direction of recession; the cost of a linear program and its derivatives are those of the optimal active rows, and nothing is returned when there is no optimum.",
  IP, "all systems, networks, data sets, functions, polyhedra and program data within bounds",
  NOGRB + "the helpers must be right for every state, data set and polyhedron, including programs with several active rows.",
  ["utils.py"],
  [("closed-loop simulation", "utils.py:1245"), ("fitting", "utils.py:1269"), ("numerical gradient", "utils.py:604"), ("boundedness", "utils.py:716"), ("linear program cost", "utils.py:842")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
