"""The property table: properties.jsonl and MANIFEST.json are generated from it (tools/build_meta.py)."""
NLP = "lumos/optimal_control/nlp.py"
SCA = "lumos/optimal_control/scaled_mesh_ocp.py"
FIX = "lumos/optimal_control/fixed_mesh_ocp.py"
CONV = "lumos/optimal_control/convolution.py"
UTIL = "lumos/optimal_control/utils.py"
TRA = "lumos/optimal_control/transcription.py"
COL = "lumos/optimal_control/collocation.py"
CFG = "lumos/optimal_control/config.py"
BASE = "lumos/models/base.py"
COMP = "lumos/models/composition.py"
TREE = "lumos/models/tree_utils.py"
NPM = "lumos/numpy/__init__.py"
BACK = "lumos/numpy/utils.py"
CAS = "lumos/numpy/casadi_numpy/__init__.py"
LAP = "lumos/simulations/laptime_simulation.py"
DRO = "lumos/simulations/drone_simulation.py"
TRK = "lumos/models/tracks.py"
KIN = "lumos/models/kinematics.py"
SVT = "lumos/models/simple_vehicle_on_track.py"
DM = "lumos/models/drone_model.py"
MS = "lumos/optimal_control/model_solver.py"

BOUNDED = ("Bounded: decided for all real values of the symbolic inputs, within the instance sizes listed in the "
           "evidence (bounds). Exact real arithmetic: rounding, overflow and NaN are outside. Trusts the symbolic "
           "numpy shim of symx, numpy's object-array execution, and z3. ")

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe, note="", **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=observe, note=BOUNDED + note, **kw))


P("C01", "Constraint Jacobian is exact and its sparsity structure complete",
  "For every optimal control problem, the values returned for the constraint Jacobian, placed at the reported "
  "structure, are the exact derivative of the constraint function at every decision vector: no non-zero derivative is "
  "missing from the structure and no entry is misplaced or wrong. This holds for scaled and fixed meshes, lifted and "
  "condensed formulations, every transcription, cyclic or not, and under any positive scales.",
  ["inputs", "configurations"],
  "every decision vector, model coefficient, mesh, mesh scale and positive scales; mesh type x formulation x "
  "transcription x cyclic flags",
  "tests compare finite differences at one random point of a few configurations with a loose tolerance",
  [NLP, SCA, FIX, CONV, UTIL],
  [("sparse Jacobian assembly", NLP), ("mesh-scale and fixed-mesh constraint builders", SCA), ("convolution constraints", CONV)],
  ["ocp.constraints(x)", "ocp.jacobian(x)", "ocp.jacobianstructure()"])
P("C02", "Lagrangian Hessian is exact, upper triangular and complete",
  "For every optimal control problem, the values returned for the Lagrangian Hessian at the reported structure are the "
  "exact second derivative of objective factor times objective plus multipliers times constraints, each unordered pair "
  "of variables being represented once, for every decision vector, multiplier and objective factor.",
  ["inputs", "configurations"],
  "every decision vector, multipliers, objective factor, model coefficients, mesh and scales over the same grid of configurations as C01",
  "tests check one random point per configuration; condensed Hessians were broken without any test noticing",
  [NLP, SCA, FIX, CONV, UTIL],
  [("Lagrangian Hessian aggregation and triu filter", NLP), ("model algebra Hessians", SCA)],
  ["ocp.hessian(x, lagrange, obj_factor)", "ocp.hessianstructure()"])
P("C03", "Condensed and lifted formulations describe the same problem",
  "The condensed constraints at a decision vector equal what is obtained from the lifted constraints when the state "
  "derivatives take the model's values, for every decision vector; both formulations have the same objective, the "
  "same feasible set and consistent constraint bounds, and condensed problems keep state derivatives out of the solution.",
  ["inputs", "configurations"],
  "every decision vector and model coefficient; transcriptions, meshes, cyclic flags",
  "tests run one solve of each formulation and compare the optimum only",
  [SCA, FIX, CONV, NLP],
  [("condensed constraint assembly", SCA)], ["ocp.constraints(x)", "variable and constraint bounds"])
P("C04", "Scaling is transparent to the physical problem and its solution",
  "For any positive scales, evaluating objective, constraints, Jacobian, gradient and Hessian of the scaled problem "
  "at scaled decision variables gives the unscaled values multiplied by the declared scale factors; the solver receives "
  "scaled bounds and initial guess, and the returned solution is in physical units; new scales replace earlier ones, "
  "and a rejected request changes nothing.",
  ["inputs", "configurations"],
  "every decision vector, multipliers and positive scale vectors, for all problem pieces and for the solve call",
  "tests use one set of random scales on one problem",
  [NLP, SCA, FIX],
  [("scale application in constraints and objectives", NLP), ("solve mapping", SCA)],
  ["ocp.objective/gradient/constraints/jacobian/hessian", "arguments handed to the NLP solver", "solution of ocp.solve"])
P("C05", "Objectives are the stated cost with exact gradients and Hessians",
  "The minimum-time objective equals the mesh scale on a scaled mesh and the difference of the time state between last "
  "and first stage on a fixed mesh; additional cost terms add up; gradients and objective Hessians are the exact "
  "derivatives under any scales.",
  ["inputs", "configurations"], "every decision vector, cost coefficient and scale",
  "tests check gradients at one point; a wrong stage or a lost scale factor only shows under particular scales",
  [NLP, SCA, FIX, LAP, DRO],
  [("composite objective", NLP), ("time objective", SCA)], ["ocp.objective(x)", "ocp.gradient(x)", "objective Hessians"])
P("C06", "Adding and removing cost terms or constraints equals a fresh problem",
  "After any sequence of adding and removing objectives and constraints and of setting scales, the problem evaluates "
  "exactly like a problem freshly built with the surviving pieces: values, Jacobian, Hessian, structures, bounds and the "
  "splitting of a constraint vector by name.",
  ["histories", "inputs"], "every sequence of add, remove, rescale and evaluate up to the stated length, at every point",
  "tests add pieces once and never remove them; stale cached structures survive unnoticed",
  [NLP], [("composite NLP bookkeeping", NLP)],
  ["objective, constraints, jacobian, hessian and structures after each history"])
P("C07", "Decision-vector layout is a bijection and lookups agree with it",
  "Packing and unpacking the decision vector are inverse to each other, and every index lookup (by group, name, stage, "
  "negative stage, or for all stages) addresses exactly the entry that unpacking reports for that variable and stage; "
  "distinct variables never share an index and invalid lookups are rejected.",
  ["inputs", "configurations"], "every layout within bounds, every value vector, every group/name/stage query",
  "tests look up a handful of names in one layout",
  [SCA, FIX, "lumos/optimal_control/utils.py"], [("decision variable operator", SCA)],
  ["operator flatten/unflatten", "operator index lookups"])
P("C08", "Variable bounds are what was last requested, for every update history",
  "After any sequence of bound and boundary-condition updates, each decision variable's bounds equal the last request "
  "that addressed it, with boundary conditions overriding path bounds, in physical units at the API and divided by "
  "the scale for the solver; contradictory or malformed requests are rejected and change nothing.",
  ["histories", "inputs"], "every sequence of updates up to the stated length, with symbolic bound values",
  "tests set bounds once on one problem",
  [SCA, FIX, NLP, CFG], [("bounds and boundary conditions", SCA)], ["bounds of the problem", "bounds handed to the solver"])
P("C09", "Mesh is monotone from start to end and follows the mesh scale",
  "For every accepted mesh, the stage positions are increasing from 0 to the mesh scale, interval boundaries included, "
  "stages within an interval sit at the scheme's points, and changing the scale multiplies every position; malformed "
  "normalised meshes are rejected, and after a mesh change the problem evaluates on the new mesh.",
  ["inputs", "histories"], "every interval-point vector and mesh scale, every order of mesh updates within bounds",
  "tests use uniform meshes only",
  [SCA, FIX, TRA], [("mesh construction", SCA)], ["normalised mesh", "mesh", "constraints on non-uniform meshes"])
P("C10", "Transcriptions integrate polynomials exactly to their stated order",
  "Each transcription's defect constraints vanish on every trajectory whose state is a polynomial of the degree the "
  "scheme promises (1 for forward Euler, which takes the slope at the start of the interval, 2 for trapezoidal, the number of stages for collocation), "
  "and only the true increments satisfy them; quadrature weights and differentiation and integration matrices are "
  "consistent with each other.",
  ["inputs", "configurations"], "every polynomial of the stated degree (symbolic coefficients), every interval length; 2..N stages",
  "tests check a few polynomial values at fixed coefficients",
  [COL, TRA, CONV], [("collocation matrices", COL), ("transcriptions", TRA)],
  ["collocation points, weights and matrices", "continuity constraints"])
P("C11", "Stage convolution helpers equal their direct definition",
  "The batched one-dimensional convolution over stages, the interval stacking and the replication of per-stage "
  "sparsity structures equal the direct definition (each interval's rows use exactly that interval's stages), for all "
  "values and all sizes within bounds.",
  ["inputs", "configurations"], "every input array and kernel; all shapes within bounds",
  "tests use a couple of shapes with fixed numbers",
  [CONV, UTIL], [("convolution", CONV), ("offset structures", UTIL)], ["outputs of the helpers"])
P("C12", "Parameter trees round-trip and address what their paths say",
  "Flattening a nested parameter set to an array and back, or to a flat dictionary and back, yields the same tree with "
  "every value at its own path, for every nesting and array shape and names that do not contain the separator; reading "
  "or replacing one path touches nothing else.",
  ["inputs", "configurations"], "every tree within bounds with symbolic leaf values (scalars, vectors, matrices), any delimiter",
  "tests round-trip one sample tree; matrices came back transposed for the casadi backend",
  [TREE, "lumos/models/tree_utils.py"], [("tree utilities", TREE)], ["ravel/unravel", "flat dictionaries", "get and set by path"])
P("C13", "Parameters and configurations of one model never leak into another",
  "Modifying parameters, model configuration or problem configuration of one object, or the dictionaries that were "
  "passed to build it, never changes another object, the defaults of a class, or the caller's own data (values are replaced "
  "through the API or the dictionaries; writing into the elements of a shared array leaf is not covered).",
  ["histories", "configurations"], "every sequence of creations and modifications up to the stated length",
  "tests create one model per test and never reuse inputs",
  [BASE, COMP, SCA, CFG, TREE], [("parameter and config copying", BASE)], ["parameters and configs of other objects", "caller's inputs"])
P("C14", "Model inputs and outputs keep their names through every packing",
  "Packing states, inputs and outputs by name into arrays and back preserves each value under its own name regardless "
  "of declaration or argument order; missing names are rejected; the implicit form is model output minus the "
  "corresponding variable in declared order, and a step of forward and implicit evaluations agree.",
  ["inputs", "configurations"], "every value and every permutation of names within bounds",
  "tests use one ordering of names",
  [BASE, UTIL], [("model IO", BASE)], ["make_dict/make_vector", "forward_with_arrays, implicit form"])
P("C15", "Submodel calls deliver each submodel's own fresh outputs exactly once",
  "In a composed model every submodel's outputs used in a forward pass are the ones computed in that pass from the "
  "arguments it was given; calling one twice or forgetting one is reported; nothing carries over from a former complete pass, "
  "repeated passes give identical results, and after a pass that failed the next one either reports an error or is fresh.",
  ["histories", "inputs"], "every sequence of call/skip/repeat decisions within bounds with symbolic inputs",
  "tests call composed models once or twice in the valid order",
  [COMP, BASE], [("submodel call protocol", COMP)], ["outputs of composed models", "errors raised"])
P("C16", "All numerical backends compute the same model function",
  "For every model in the library, the functions produced by the compiled and symbolic backends compute the same "
  "outputs as the plain Python evaluation of the model, for all states, inputs, mesh points and "
  "parameters, not only for those baked in at construction, and the derivatives they return are the exact ones.",
  ["inputs", "programs"], "every input and parameter value; the program each backend actually generated is read back and compared symbolically",
  "tests compare backends at one random point with default parameters",
  [BASE, NPM, BACK, CAS], [("backend function factories", BASE), ("backend dispatch", NPM)],
  ["jax trace, casadi expression graph and numpy evaluation of the same model"])
P("C17", "The casadi numpy layer means what numpy means",
  "Every array function the casadi layer defines, and every elementwise function reached through it, computes the same values as "
  "numpy's function of the same name on every input it accepts (a casadi column standing for a one-dimensional array), and refuses "
  "what it cannot do instead of returning something else.",
  ["inputs", "configurations"], "every element value; argument shapes and options within bounds",
  "tests sample a few functions at a few points",
  [CAS, NPM], [("casadi numpy implementation", CAS)], ["value of the returned casadi expression"])
P("C18", "The active backend is always restored",
  "Whatever sequence of nested backend selections, function constructions and failures occurs, leaving a selection "
  "restores the backend that was active when it was entered, including on exceptions, and functions evaluate with "
  "the backend they were built for.",
  ["histories", "fault_sequences"], "every sequence of enter, leave, raise and build steps up to the stated depth",
  "tests switch once, without failures",
  [NPM, BACK], [("backend context", NPM)], ["active backend after each step"])
P("C19", "Batched maps equal applying the function to each element",
  "Mapping a function over stages, with any choice of batched and shared arguments, gives the stack of individual "
  "applications for every backend map, including batches of one.",
  ["inputs", "configurations"], "every batch content; batch sizes, shared/batched argument patterns within bounds",
  "tests map one function with one pattern",
  [NPM, BACK], [("lmap and casadi map", NPM)], ["values of mapped functions"])
P("C20", "Vehicle dynamics obey Newton's laws and load transfer balance",
  "For every state and input the vehicle model's tyre loads sum to weight plus downforce, accelerations equal the sum of "
  "tyre, aerodynamic and drive forces over mass and inertia, mirrored inputs give mirrored responses on a symmetric "
  "car, and power and brake torques distribute without loss.",
  ["inputs"], "every state, input and parameter value within the stated positivity bounds",
  "tests check that the model runs and matches one stored result",
  ["lumos/models/vehicles/simple_vehicle.py", "lumos/models/aero/aero.py"],
  [("vehicle dynamics", "lumos/models/vehicles/simple_vehicle.py")], ["forward outputs and state derivatives"])
P("C21", "Tyre models honour symmetry, zero slip and grip limits",
  "Tyre forces, moments and reported stiffnesses follow the published formula of the model (MF 5.2, Perantoni) for "
  "every coefficient set: zero slip and camber without offsets gives zero force, reversing a slip reverses its force, "
  "pure-slip forces never exceed the friction coefficient times load (plus shift), Perantoni forces stay inside the "
  "friction ellipse, the optimisation variant differs in the moments only, and all stay defined at zero slip.",
  ["inputs"], "every slip, load, camber, speed and coefficient within stated ranges",
  "tests compare one operating point with a stored value",
  ["lumos/models/tires/perantoni.py", "lumos/models/tires/pacejka.py", "lumos/models/tires/base.py"],
  [("tyre models", "lumos/models/tires")], ["forward outputs of the tyre models"])
P("C22", "Track kinematics and drone dynamics are geometrically consistent",
  "Curvilinear kinematics equal the time derivative of the cartesian position mapped through the track frame; time "
  "per distance is the inverse of progress speed; changing the independent variable from time to distance scales "
  "every state derivative by it; the drone obeys its planar rigid-body equations.",
  ["inputs"], "every speed, heading, curvature and lateral offset within the valid range",
  "tests only check derivatives by finite differences at one point",
  [KIN, SVT, DM], [("track kinematics", KIN), ("vehicle on track", SVT), ("drone", DM)], ["forward outputs"])
P("C23", "Track geometry transforms like geometry",
  "Rotating, translating, mirroring or reversing a track's centre line turns its heading, leaves (or negates) curvature "
  "and keeps length and widths; scaling divides curvature; look-ups reproduce the data at its own nodes and interpolate "
  "in between; a straight line has zero curvature and evenly spaced points of a circle exactly 1/R; heading accumulates "
  "curvature and rebuilding from curvilinear data follows the heading; a track file's columns are read as what they are.",
  ["inputs"], "every centre line with up to N points (symbolic coordinates) and every transform",
  "tests load a few stored tracks",
  [TRK], [("track construction and lookup", TRK)], ["heading, curvature, distance and width lookups"])
P("C24", "A lap-time problem always reflects the track it was given last",
  "After any sequence of track changes, the problem's mesh, curvature and heading data, lateral bounds and initial "
  "guess are those of a problem freshly built with the last track and agree with the track at every stage (curvature "
  "and heading data, -right width <= n <= left width, boundary conditions first); the initial guess fits the model's "
  "equations for state derivatives and constraint outputs; a track that cannot be read changes nothing; other bounds "
  "set by the user survive.",
  ["histories", "inputs"], "every sequence of track changes up to the stated length with symbolic track data",
  "tests set one track",
  [LAP], [("track update", LAP)], ["bounds, mesh and initial guess after each change"])
P("C25", "The steady-state solver poses exactly the requested problem",
  "The steady-state model solver's objective, constraints, bounds and derivatives are those of the requested "
  "objective and operating conditions on the model's own equations, for all values, and its result is reported under "
  "the right names.",
  ["inputs", "configurations"], "every decision vector, bound and parameter value within bounds",
  "tests solve one operating point",
  [MS], [("model solver", MS)], ["functions and bounds handed to the solver"])
P("C26", "Logged iterations report the physical iterate",
  "Every logged row contains the physical (unscaled) values of the iterate it belongs to, under the right names and "
  "mesh positions, with the model's outputs and the problem's constraint values there, for any scales, logging interval "
  "and formulation; the combined log holds exactly the recorded iterations and the last one, in order; metrics belong to "
  "their iteration and point at the largest violation; every solve's log is its own, also after one that failed.",
  ["inputs", "histories"], "every iterate sequence up to the stated length, scales and logging intervals",
  "tests only check that a file exists",
  [SCA, FIX, NLP], [("iteration logging", SCA)], ["contents of the log"])
P("C27", "Tyre files are read as the values they contain",
  "Reading a tyre property file yields exactly its numeric entries, each with the value written in the file, whatever "
  "comments, blank lines, sections, texts, white space and line ends surround them; a repeated key has its last value; "
  "the parameters made from a file are those and the four regularisation constants.",
  ["inputs"], "every file within the grammar bounds (section/comment/entry lines, symbolic choices and values)",
  "tests read one stored file",
  ["lumos/models/tires/utils.py"], [("tir reader", "lumos/models/tires/utils.py")], ["parsed dictionary"])
P("C28", "Problem configurations survive conversion and reject contradictions",
  "A problem configuration converted to a dictionary (also one whose tuples became lists) and rebuilt has the same content "
  "and builds the same problem, separately from the original; a bound pair is accepted exactly when no lower bound exceeds "
  "its upper bound; unknown names, groups, transcriptions, backends, settings and unusable interval points are rejected; a "
  "lap-time configuration needs a track and never makes time and track heading cyclic.",
  ["configurations"], "every combination of options within bounds with symbolic numeric values",
  "tests build one configuration",
  [CFG], [("configuration classes", CFG)], ["rebuilt configuration and the problem built from it"])
P("C29", "Reported model sparsity covers every possible non-zero",
  "The sparsity a model reports for its equations is complete whatever the parameters were when it was made: an equation "
  "changes with a variable only if that entry is in the Jacobian structure, and two variables interact in some equation "
  "only if the pair is in the Hessian structure, for every state, input, mesh point and parameters, on every backend; "
  "the same holds for the Jacobian structure of lifted and condensed problems built from these models.",
  ["inputs", "programs"], "every input and parameter value, for the library's models and compositions on the jax and casadi backends",
  "structures derived from a sample point lose a derivative that vanishes there; tests look at one random point",
  [BASE, SCA, FIX], [("structure of the model equations", BASE), ("structure of the condensed problem", SCA)],
  ["structures versus the dependence of the equations"],
  "The derivative with respect to a scaled mesh is documented not to be taken and is left out.")
P("C30", "Changing a model parameter equals building with that parameter",
  "After any sequence of parameter changes (mixed with evaluations, mesh changes and rejected changes, starting from any parameters) "
  "constraints, Jacobian, Hessian, objective and bounds of the problem are those of a problem built with the "
  "final parameters, in every formulation and on every backend; building functions, exporting C code and evaluating leave "
  "the model's own parameters as they were.",
  ["histories", "inputs"], "every sequence of modifications up to the stated length with symbolic values",
  "tests modify one scalar parameter on the lifted formulation",
  [SCA, FIX, BASE, COMP, LAP], [("parameter updates", SCA), ("parameter tree access", BASE)], ["problem functions after the update"])
P("C31", "Exported C code and compiled libraries compute the model's own functions",
  "The C function that a model exports returns the state derivatives, outputs, constraint outputs and residuals of that "
  "model for whatever states, inputs, mesh position and parameters are given to it, and exporting leaves the model as it "
  "was. The libraries compiled for the casadi backend belong to the model they were built for, whichever models were "
  "built in the same directory before or at the same time: models with different equations never share one, a model built "
  "earlier keeps computing its own equations and derivatives, and neither another process building there at any point of a "
  "compilation nor a compilation that failed or was killed there makes a later build wrong.",
  ["inputs", "programs", "histories"],
  "every state, input, mesh and parameter value for the library's models in SX and MX, every stated order and interruption of builds",
  "tests compile one model in a clean directory and compare at one point",
  [BASE, CAS], [("C export and compilation", BASE)], ["the C code that is written and the functions loaded from it"],
  "The C code is interpreted from LLVM IR with every memory access checked; compiler and loader are trusted.")
P("C32", "Solving hands over the problem and returns its answer in the user's units",
  "A solve gives the optimiser the problem as it stands then: its size, bounds and start point in scaled variables, the "
  "multipliers passed in, and the default options overridden by exactly the options of that call. The solution comes back "
  "unscaled with the optimiser's information, the number of iterations and the times of that call; start points and other "
  "arguments are not modified, nothing of a call carries over into the next, a problem without objective is a pure "
  "feasibility problem, and precisely a failed execution raises an error.",
  ["inputs", "histories"], "every start, solution, scale, bound, multiplier, option value and status code; sequences of up to three solves",
  "tests solve once with a fixed set of options and look at the solution",
  [NLP, SCA, FIX], [("solve", NLP), ("solve of optimal control problems", SCA)],
  ["what the optimiser is given", "solution and information returned"],
  "The optimiser is a stand-in; its own numerical work is not part of this repository.")

P("C33", "Optimisation problems written as plain functions get exact derivatives",
  "A problem written as a direct subclass of NLPFunction with only an objective and a constraint function gets their exact "
  "gradient, dense Jacobian and, at the reported structure, upper-triangular Hessian of objective factor times objective "
  "plus multipliers times constraints, at every point, multiplier and objective factor; several such problems alive "
  "together each get their own, and evaluating the objective returns its value.",
  ["inputs", "histories"], "every point, multipliers and objective factor; several instances of one class, in any order of evaluation",
  "no test uses the autograd path of the base class",
  [NLP], [("autograd defaults", NLP)], ["gradient(x)", "jacobian(x)", "hessian(x, lagrange, obj_factor)", "hessianstructure()"])

P("C34", "A model is composed exactly as its configuration says",
  "A model built from a configuration is made, at every level, of exactly the variants the configuration names: its values, "
  "its output names, its submodels by path and its parameter tree agree with them. That holds after any history of changing "
  "the configuration at any depth, building models from it, setting parameters and registering or removing variants; a "
  "model built earlier is not changed by what happens to the configuration or the registry later, defaults stay as declared, "
  "and configurations that name unknown variants, lack a part or belong to another class are rejected.",
  ["inputs", "histories"], "every input and parameter value, models up to four levels deep, histories of several changes and builds in any order",
  "tests build two fixed configurations and compare class names",
  [BASE, COMP, TREE], [("configuration and registry", COMP), ("replacing and reading subtrees", TREE), ("submodels of a model", BASE)],
  ["model outputs and names", "get_submodel", "get_recursive_params", "errors"])

P("C35", "The ready-made simulations pose the physical problem they state",
  "A decision vector satisfies the constraints of the drone or lap-time problem exactly when it moves by the physical "
  "equations between its stages: planar thrust dynamics in scaled time for the drone, the vehicle model on the given track over "
  "distance for the lap, closed on itself where cyclic, with the outputs of the model. The cost is the time of flight or of "
  "the lap (plus the steering penalty), user settings replace exactly the defaults they name, both ends are as stated, and "
  "start points satisfy the model equations, also after parameters, mesh, bounds, ends, scales or track were changed.",
  ["inputs", "histories", "configurations"], "every decision vector, parameter, mesh, track, bound and scale; transcriptions, condensed or not, histories of changes",
  "tests solve each simulation once with default settings",
  [DRO, LAP, SCA, FIX], [("drone problem", DRO), ("lap-time problem", LAP), ("constraints", SCA)],
  ["constraints(x)", "objective(x)", "lb", "ub", "get_init_guess()"])

UNCLAIMED = {}
NOTES = ("All checks: ./check.sh <id> runs symx (symbolic execution of the real lumos code under a numpy shim with z3), "
         "see DESIGN.md. Exit 2 means inconclusive (a solver or exploration limit), never reported as success.")
