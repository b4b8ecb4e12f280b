"""Per-property notes for DESIGN.md (tools/build_meta.py puts the table together)."""
# id -> (how the solver decides it / against which oracle, limits and false alarms met, quick cost)
D = {
"C01": ("Oracle: exact symbolic differentiation of the terms the problem's own `constraints` returns at a symbolic decision vector; "
        "each entry of (Jacobian triplets summed over duplicates, densified) minus derivative is an equation for all values.",
        "Models are second-order generic (quadratic with arbitrary coefficients): a smooth model and its 2-jet are indistinguishable "
        "to Jacobian and Hessian assembly at one point. The derivative by a scaled mesh of a mesh-dependent model is documented as not taken.", "8-14 s"),
"C02": ("As C01 for second derivatives; multipliers and objective factor symbolic; the structure's triangle is checked on concrete indices.", "", "9-23 s"),
"C03": ("Two problems built from one model; states_dot of the lifted one replaced by the model's own derivative terms; rows equal as terms.", "", "3-6 s"),
"C04": ("Two problems, one scaled by symbolic positive scales; values related by the change of variables, row scales solved for and "
        "required to be positive and the same in constraints, Jacobian and Hessian.", "", "12 s"),
"C05": ("Objective terms against time/steering formulas written in the check; derivatives by exact differentiation.", "", "3-11 s"),
"C06": ("History = sequence of symbolic choices (the engine forks on each); after it, everything the problem reports equals what is "
        "computed directly from the list of surviving pieces.",
        "Dense Hessians handed in as full matrices without a structure are represented once per pair.", "8-10 s"),
"C07": ("Entries are distinct symbols, the queried stage is a symbolic integer; a lookup is right when it returns the very symbol "
        "unpacking reports.", "", "4 s"),
"C08": ("Histories of requests as symbolic choices with symbolic values; reference is a small table written in the check.", "", "22-76 s"),
"C09": ("Acceptance of a mesh is compared with the predicate over symbolic points (one path per reason of rejection); the state after a "
        "history against a freshly built problem.", "", "6-17 s"),
"C10": ("Polynomials with symbolic coefficients through the schemes' real matrices; numerical node values make the tolerance 1e-6 necessary.",
        "", "3 s"),
"C11": ("Index helpers on symbolic entries/offsets; convolved constraints against a loop over stages.", "", "4 s"),
"C12": ("Leaf values symbolic, shapes symbolic choices; round trips return the same symbols at the same paths.",
        "The tree constructor does not copy its data (not claimed); nodes compare by content.", "30 s"),
"C13": ("Histories as symbolic choices over models alive together; evaluation terms of every model against the parameters last given to it.",
        "ConstAero.forward returns its parameters (aliasing inside one call is not claimed).", "8 s"),
"C14": ("Every order is a symbolic choice, every value its own symbol.", "", "65-125 s"),
"C15": ("The model's forward is a program of symbolic steps; a shadow protocol in the check says what may be delivered.",
        "The buffer after a failed pass is only required not to pass off old values as new ones.", "17 s"),
"C16": ("The traced jax program (jaxpr) and the built casadi function (instruction list) are evaluated on terms and compared with the "
        "numpy evaluation of the model on the same terms.",
        "Derivatives of the full vehicle models exceed what z3 and the normal form do in the time: compared for the smaller models; "
        "C29 covers the sparsity of the large ones.", "40-72 s"),
"C17": ("casadi expressions read back as terms against numpy on the same symbols.",
        "roll of a one-row matrix without axis (pinned by an existing test), logic on non-truth values and `mod` are not claimed.", "36-70 s"),
"C18": ("Programs of selections as symbolic choices; dispatch tables compared after every step.", "", "59 s"),
"C19": ("Contents symbolic, batch sizes and memory layouts symbolic choices.",
        "`batch_conv1d` windows overlapping by more than one stride are not offered by the library.", "60-100 s"),
"C20": ("Newton's laws, load balance etc. written from mechanics in the check; residuals are zero as terms or by z3 over the box.",
        "The order of layers in MLPAero is as its parameters say.", "11 s"),
"C21": ("The published formulas written a second time; both evaluated on symbolic slip, load, camber and coefficients.",
        "Reverse running is outside what the code documents.", "29 s"),
"C22": ("Velocity of the point described by the curvilinear coordinates (differentiated geometry) against the vehicle's velocity.", "", "2 s"),
"C23": ("Symbolic polylines; invariances as relations between two evaluations.",
        "Rotations: 3 points by any (rational parametrised) angle, more by four fixed angles.", "22-44 s"),
"C24": ("Histories of track changes; then everything against a problem freshly built with the last track.", "", "18 s"),
"C25": ("Histories of requests; the posed problem against objective/bounds/equations assembled in the check.", "casadi backend only.", "85-102 s"),
"C26": ("The log files are really written: a symbolic value is written as a unique number standing for it, and mapped back when read.",
        "Iteration numbers repeated by the restoration phase with another iterate, and two problems built within the same second "
        "(which share a log directory), are not claimed. The largest violation is checked on fixed numbers.", "26 s"),
"C27": ("Every ingredient of a line is a symbolic choice; the file is real. The values are concrete: the solver's part is the choice of "
        "the combination, exhaustive within the lists.", "", "72-113 s"),
"C28": ("Settings are symbolic choices, numbers symbols; round-tripped configurations build problems compared as in C01.", "", "45 s"),
"C29": ("Missing Jacobian entry: equation(x) - equation(x with that variable replaced by an independent symbol) = 0; missing Hessian "
        "pair: mixed difference = 0. No derivative is needed, so this reaches the full vehicle models.",
        "Hessian of track-perantoni on casadi only in the thorough tier (260 s).", "110 s"),
"C30": ("Histories of parameter changes; the problem against one built with the final parameters.",
        "The derivative by mesh_scale of models that depend on the mesh is excluded as in C01; parameters after a failed build or "
        "export are not claimed.", "65 s"),
"C31": ("Generated C text -> clang -O0 IR -> symbolic interpretation (`llvmir.py`) against the python evaluation. Compiling and loading "
        "are modelled (which library a call reaches is decided by real file names/content in a scratch folder).",
        "Processes are interrupted at the start, in the middle and at the end of the compiler's run (a held-up compiler on the "
        "PATH); interruptions elsewhere in a build are not explored.", "25-40 s"),
"C32": ("The optimiser is a recording stand-in with symbolic answers.",
        "Default option values are not pinned (only: the same for each call, and overridden by the user's). The iteration count of "
        "a solve that reports no iteration is not claimed.", "45-70 s"),
"C33": ("The traced programs of gradient, Jacobian and Hessian (jaxpr) evaluated on terms against exact differentiation of the numpy "
        "evaluation of the same functions.", "`solve` of a direct subclass needs attributes only CompositeProblem provides: not claimed.", "30 s"),
"C34": ("Histories of symbolic choices (where and how the configuration changes, builds, registry changes) against a description "
        "kept beside them; model values compared as terms in symbolic inputs and parameters.", "Concurrent use of the registry.", "54 s"),
"C35": ("The constraint vector of the whole problem as terms against collocation defects written down independently; the drone's equations "
        "are the harness's own, the vehicle is the library model evaluated alone (C20 - C22 decide it).",
        "The matrices of the Legendre transcriptions are taken from the code (C10 decides them).", "60 s"),
}
# seeded change -> check that catches it, remark
MISSED_FIRST = {"cmap_tile", "lmap_dtype", "dict_len", "hash_head", "inf_bound", "treedef_cache", "ravel_k", "bc_latest", "scale_keep", "same_sub"}
