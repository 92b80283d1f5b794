"""The properties: what each says, where it is anchored, and which suites decide it.

suites: {suite: clauses of the trace specification which belong to the property}
(an empty set means every clause; the clause "crash" always counts)."""
SRC = "src/andromede/"
EXP = SRC + "expression/"
SIM = SRC + "simulation/"
STU = SRC + "study/"
MOD = SRC + "model/"


def P(title, statement, over, text, why, files, mech, suites, level="model_checking", note="",
      assumptions=(), state=(), observe=()):
    return dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=[{"name": a, "where": b} for a, b in mech], suites=suites, level=level,
                note=note, assumptions=list(assumptions), observe=list(observe),
                state=[{"name": a, "meaning": b, "where": c} for a, b, c in state])


PROPERTIES = {}

PROPERTIES["C01"] = P(
    "Expression text is read with the documented grammar and precedence, or rejected",
    "Every expression text that follows the grammar is read as the expression whose operators associate to the left with the usual precedence (time operators and port sums included), with names resolved to the declared variables and parameters. Text that does not follow the grammar, contains unknown characters or unknown names is refused with an error and never silently truncated or reinterpreted.",
    ["inputs", "programs"], "all token sequences (exhaustively up to a length bound, then random longer texts, spacing and corrupted texts) over declared identifiers",
    "The tests parse a dozen fixed strings; precedence, associativity and rejection are claims about every string.",
    [EXP + "parsing/parse_expression.py", EXP + "parsing/antlr/ExprParser.py", "grammar/Expr.g4"],
    [("parse_expression", EXP + "parsing/parse_expression.py"), ("ExpressionNodeBuilderVisitor", EXP + "parsing/parse_expression.py")],
    {"parse": set()})

PROPERTIES["C02"] = P(
    "Building expressions with operators is faithful and never alters the operands",
    "Combining expressions and plain numbers with the Python operators, comparisons, time and scenario operators yields an expression with exactly that structure, whichever side the number is on. Expressions already built keep their structure whatever is later built from them, structural comparison accepts exactly equal expressions, and copies and printed forms denote the same expression.",
    ["histories", "inputs"], "all short histories of building operations over a heap of shared expressions, and random longer ones",
    "Tests build each operator once on fresh operands; aliasing and operand order only show in longer histories.",
    [EXP + "expression.py", EXP + "equality.py", EXP + "copy.py", EXP + "print.py"],
    [("operator overloading", EXP + "expression.py"), ("EqualityVisitor", EXP + "equality.py"), ("CopyVisitor", EXP + "copy.py"), ("PrinterVisitor", EXP + "print.py")],
    {"ops": {"build", "copy", "equality", "print"}})

PROPERTIES["C03"] = P(
    "Evaluation and substitution preserve the value of an expression",
    "Evaluating an expression returns the arithmetic value of its operators for the given values of parameters and variables, and fails when a value is missing. Replacing parameters by their values, or attaching an expression to a component, changes only those leaves (also inside time bounds) and never the value of the expression.",
    ["inputs", "programs"], "all expressions reachable by short building histories with all value assignments of a small domain, plus random ones",
    "Tests evaluate a few hand-written expressions; the claim is compositional over all of them.",
    [EXP + "evaluate.py", EXP + "evaluate_parameters.py", EXP + "context_adder.py", EXP + "copy.py"],
    [("EvaluationVisitor", EXP + "evaluate.py"), ("ParameterResolver", EXP + "evaluate_parameters.py"), ("ContextAdder", EXP + "context_adder.py")],
    {"ops": {"evaluate", "resolve", "context"}})

PROPERTIES["C04"] = P(
    "Only expressions linear in the variables are accepted, and all of them are",
    "The degree, constancy and linearity reported for an expression are those of the polynomial it denotes in the variables, whatever the operators it is made of. An expression that is not linear (product of variables, division by a variable, comparison inside an expression) or that has an invalid time bound is refused when turned into a linear form; every linear one is accepted.",
    ["programs", "inputs"], "all expressions up to a depth bound over a two-component system, plus random deeper ones at the border of linearity",
    "Tests check degrees of a handful of expressions and a few rejected products.",
    [EXP + "degree.py", SIM + "linearize.py", EXP + "operators_expansion.py"],
    [("ExpressionDegreeVisitor", EXP + "degree.py"), ("LinearExpressionBuilder", SIM + "linearize.py")],
    {"expr": {"degree", "constant", "linear", "rejection"}, "ops": {"degree"}})

PROPERTIES["C05"] = P(
    "Time and scenario dependence of an expression is computed exactly",
    "An expression is considered to depend on time (on scenario) exactly when some variable or parameter it uses does, outside of operators that remove that dependence: evaluation at a fixed step and sum over all steps for time, expectation for scenario. A constraint is therefore written once for every time step and scenario its expression or its bounds depend on, and only once otherwise.",
    ["programs", "inputs", "configurations"], "all expressions up to a depth bound with all dependence structures of their leaves; random systems for the constraint instances",
    "Tests check a few expressions with one structure each.",
    [EXP + "indexing.py", EXP + "indexing_structure.py", SIM + "optimization.py"],
    [("TimeScenarioIndexingVisitor", EXP + "indexing.py"), ("_compute_indexing", SIM + "optimization.py")],
    {"expr": {"index"}, "build": {"constraints", "rejected", "duplicates"}})

PROPERTIES["C06"] = P(
    "Time and scenario operators have their mathematical meaning in the linear form",
    "The linear form of an expression at a time step and scenario has exactly the coefficients and constant of its mathematical meaning: a shift refers to the step translated cyclically in the block, an evaluation to the given step, a sum to every step of its range, an expectation to the average over the scenarios, in any nesting. Parameters are read at the step and scenario of the term they multiply.",
    ["programs", "inputs", "configurations"], "all expressions up to a depth bound and random deeper ones, at every position of blocks of 1 to 5 steps and 1 to 3 scenarios, with parameters of every dependence",
    "Tests linearise a few expressions; nestings of operators and products with time-dependent parameters are not enumerated.",
    [EXP + "operators_expansion.py", SIM + "linearize.py", SIM + "linear_expression.py"],
    [("OperatorsExpansion", EXP + "operators_expansion.py"), ("LinearExpressionBuilder", SIM + "linearize.py")],
    {"expr": {"meaning", "rejection", "mutation"}})

PROPERTIES["C07"] = P(
    "Linear expressions obey the algebra of affine forms and leave operands alone",
    "Sums, differences, negations, products and quotients of linear expressions return the affine form of the mathematical result, keyed by variable, time and scenario; terms that cancel count as absent for equality. Products of two non-constant forms and quotients by non-constant or zero forms are refused, and the operands keep their value after any sequence of operations.",
    ["histories", "inputs"], "all short histories of operations over a heap of linear expressions with shared terms, and random longer ones",
    "Tests apply each operation once on fresh operands.",
    [SIM + "linear_expression.py"],
    [("LinearExpression", SIM + "linear_expression.py"), ("Term", SIM + "linear_expression.py")],
    {"linalg": set()})

BUILD_FILES = [SIM + "optimization.py", SIM + "strategy.py", STU + "network.py", STU + "data.py"]
PROPERTIES["C08"] = P(
    "The problem has exactly the components' variables, with the right bounds",
    "For every component and every selected variable of its model, the problem contains one variable per time step and scenario the variable depends on (one if it does not), of the declared kind, with the declared bounds evaluated with the data of that component, time step and scenario. There is no other variable, and a lower bound above the upper bound, or two variables of the same full name, are refused.",
    ["configurations", "inputs"], "random systems of components, models, data of every structure, blocks, scenario counts, selections and tree nodes",
    "Tests build a few systems and look at the optimum only, which rarely depends on every bound.",
    BUILD_FILES, [("OptimizationProblem._create_variables", SIM + "optimization.py"), ("ModelSelectionStrategy", SIM + "strategy.py")],
    {"build": {"variables", "duplicates", "accepted", "rejected"}})

PROPERTIES["C09"] = P(
    "Every constraint of every component is in the problem, with the right rows",
    "For every component and every selected constraint of its model, the problem contains exactly the rows obtained by instantiating the constraint at each time step and scenario it depends on: same coefficients, and bounds that include the constants and right-hand side evaluated with the component's data. No row is missing, duplicated or shared between components, and a treatment of the block's border other than the cycle is refused.",
    ["configurations", "inputs"], "random systems of components, models, data of every structure, blocks, scenario counts, selections and tree nodes",
    "Tests compare optimal costs of a few systems; a wrong but non-binding row goes unnoticed.",
    BUILD_FILES + [MOD + "constraint.py", SIM + "linearize.py"],
    [("make_constraint", SIM + "optimization.py"), ("Constraint", MOD + "constraint.py")],
    {"build": {"constraints", "duplicates", "accepted", "rejected"}})

PROPERTIES["C10"] = P(
    "The objective is the weighted sum of the selected contributions",
    "The problem minimises the sum, over all components, of the objective contributions selected by the build strategy, each multiplied by the risk weight and evaluated with the component's own data, constants included. Contributions of several components on the same variable add up.",
    ["configurations", "inputs"], "random systems, selections (merged, operational, investment), risk weights, blocks and scenario counts",
    "Tests compare optimal costs of a few systems under one strategy each.",
    BUILD_FILES, [("_create_objective", SIM + "optimization.py"), ("RiskManagementStrategy", SIM + "strategy.py")],
    {"build": {"objective", "accepted", "rejected"}})

PROPERTIES["C11"] = P(
    "Port fields carry the expressions of the connected components",
    "In a component's constraint, the sum over a port's connections equals the sum of the expressions that the connected components (or the component itself) define for that field, each with its own component's variables and data, and is zero without any connection. A port field used without a sum stands for the single expression connected to it, and is refused when there is none or more than one.",
    ["configurations", "inputs"], "random networks with one or several ports per model, mixed directions of definition, zero to five connections, ports under time and scenario operators",
    "Tests wire a few fixed networks where every port has the usual single direction.",
    [EXP + "port_resolver.py", EXP + "port_operator.py", SIM + "optimization.py", STU + "network.py"],
    [("PortResolver", EXP + "port_resolver.py"), ("_register_connection_fields_definitions", SIM + "optimization.py")],
    {"build": {"constraints", "accepted", "rejected"}})

PROPERTIES["C12"] = P(
    "Building a problem is repeatable and leaves the network and the data untouched",
    "Building problems one after the other from the same network and data, for any sequence of blocks, scenario counts, selections and tree nodes, gives each time the problem that the request alone determines. No build alters the models, the network or the data.",
    ["histories", "configurations"], "random sequences of build requests on shared objects, including repetitions",
    "Tests build one problem per network object.",
    BUILD_FILES, [("build_problem", SIM + "optimization.py"), ("OptimizationContext", SIM + "optimization.py")],
    {"build": set()})

PROPERTIES["C13"] = P(
    "A network only holds well-formed connections and keeps what was added",
    "Two ports are connected only when both exist, have the same port type, and exactly one side defines each field of it; a refused connection leaves the network as it was. An accepted one records, for every field, the side that defines it. Nodes and components are found again under their identifier with their own model, in the order of addition, and editing a network never alters another one replicated from it.",
    ["histories"], "all short histories of additions, connections and replications over three models, random longer ones over random models",
    "Tests make a few valid connections and one or two invalid ones.",
    [STU + "network.py", MOD + "port.py"],
    [("Network", STU + "network.py"), ("PortsConnection", STU + "network.py")],
    {"network": set()})

PROPERTIES["C14"] = P(
    "Ill-formed models are refused; accepted ones show what was declared",
    "A model is refused when a bound of a variable or constraint is not a constant, when a comparison is given additional bounds, when a constraint has lower bound plus infinity or upper bound minus infinity, when a variable, parameter, constraint, port or port field definition is declared twice, when a port field definition names an unknown port or field or uses ports or comparisons, or when an objective contribution is non-linear, uses ports or still depends on time or scenario. Any other model is accepted and shows exactly the declared variables, parameters, constraints (comparisons moved to one side), ports and objectives; a replica equals it, and two variables, constraints, parameters or ports are equal exactly when declared alike.",
    ["programs", "inputs"], "random model definitions, well formed and with every kind of defect at every place",
    "Tests try a few examples of each rule; the rules apply to every expression.",
    [MOD + "model.py", MOD + "constraint.py", MOD + "variable.py", MOD + "port.py", EXP + "degree.py", EXP + "indexing.py"],
    [("Model.__post_init__", MOD + "model.py"), ("Constraint.__post_init__", MOD + "constraint.py"), ("Variable.__post_init__", MOD + "variable.py"), ("_PortFieldExpressionChecker", MOD + "model.py")],
    {"model": set()})

PROPERTIES["C15"] = P(
    "Data are read at the right time step, scenario and tree node, or refused",
    "Reading a parameter of a component returns the value stored for that time step, scenario and tree node, the scenario being first translated by the scenarization of the data, with later changes of the scenarization taken into account; the most recent addition wins. A missing component, parameter, index, year or file is an error. The consistency check accepts exactly the networks in which every parameter of every node and component has data that do not vary along a dimension the parameter does not declare.",
    ["histories", "inputs"], "random histories of additions, scenarization years, reads, requirement checks and file reads",
    "Tests read a few constants and series.",
    [STU + "data.py"],
    [("DataBase", STU + "data.py"), ("Scenarization", STU + "data.py"), ("check_requirement", STU + "data.py"), ("load_ts_from_txt", STU + "data.py")],
    {"data": set()})

PROPERTIES["C16"] = P(
    "Result tables show the solution, and compare up to tolerance and ignored parts",
    "The results of a solved problem give, for every component and variable, the solution value of each time step and scenario in its place, with the shape of the variable. Values set by hand read back identically. Two result tables are equal, or close, exactly when every value that is not ignored on either side is present in both with equal, or close, value and shape; Benders solutions compare by cost and candidates.",
    ["histories", "inputs", "configurations"], "random histories of settings, ignores, reads and comparisons over a heap of tables; random problems with a known solution",
    "Tests compare a few tables.",
    [SIM + "output_values.py"],
    [("OutputValues", SIM + "output_values.py"), ("BendersSolution", SIM + "output_values.py")],
    {"output": set()})

PROPERTIES["C17"] = P(
    "Decision trees keep consistent probabilities and separate, checked couplings",
    "A node's probability is the product of the probabilities along its path, built from the root or from the leaves; a probability outside 0 to 1 is refused and leaves the tree as it was, and a tree whose children do not sum to their parent's probability cannot be decomposed. A coupling is accepted only when its components belong to the node's and its parent's network and have the named variables; the master then holds exactly one row 'child cumulative - child increment = parent cumulative' (zero at the root) per accepted coupling of that tree, and none of another tree.",
    ["histories"], "all short histories of node additions, couplings and decompositions, random longer ones over random networks, several trees at once",
    "Tests build one small tree per process.",
    [SIM + "decision_tree.py", SIM + "benders_decomposed.py"],
    [("DecisionTreeNode", SIM + "decision_tree.py"), ("define_coupling_constraint", SIM + "decision_tree.py"), ("_add_coupling_constraints", SIM + "decision_tree.py")],
    {"benders": {"probability", "coupling", "master", "accepted"}})

PROPERTIES["C18"] = P(
    "The Benders decomposition splits the tree problem without loss or duplication",
    "The master holds, for every tree node, exactly the investment and coupling variables (with their own bounds and kind), the constraints and the investment cost of that node weighted by its probability, constants included, plus the coupling rows. There is one subproblem per node and block, under its own name (a clash is refused), holding the operational and coupling part weighted the same way. The structure file lists, for the master and each subproblem, every master variable they contain with its column in that problem whatever the length of the names, and the files written are those problems with the options asked for.",
    ["configurations", "histories"], "random trees, networks, data per tree node, blocks, scenario counts, couplings, repeated decompositions",
    "Tests decompose a few systems and compare optima or a structure text.",
    [SIM + "benders_decomposed.py", SIM + "optimization.py", SIM + "strategy.py", SIM + "decision_tree.py"],
    [("build_benders_decomposed_problem", SIM + "benders_decomposed.py"), ("fusion_problems", SIM + "optimization.py"), ("export_structure", SIM + "benders_decomposed.py")],
    {"benders": {"master", "subproblem", "names", "structure", "files", "accepted", "rejected"}})

PROPERTIES["C19"] = P(
    "A Benders run reports failure and exposes the solution of that run",
    "Running a decomposition calls the solver (or the merging tool when merging is asked) in the export directory after the files are written, and comes back to the directory it started from, also when the command cannot be started. It returns false, keeping the previous solution, exactly when the command fails; otherwise the solution read is the one in the output file, of the kind that was run, whatever was run before.",
    ["histories", "fault_sequences"], "all short histories of runs (merged or not, command failing or not startable, output missing or not), random longer ones, with a stand-in command",
    "The external solver is not available to the tests, which only check that the call returns.",
    [SIM + "benders_decomposed.py", SIM + "runner.py", SRC + "utils.py"],
    [("BendersDecomposedProblem.run", SIM + "benders_decomposed.py"), ("CommandRunner", SIM + "runner.py")],
    {"runner": set()}, assumptions=["the external command exists (a missing command is deliberately ignored by the code)"])

PROPERTIES["C20"] = P(
    "Model libraries resolve in any order, or are refused for a real conflict",
    "Libraries given in any order, depending on each other or on preloaded ones, resolve to the same models; each model sees exactly the port types of its library, of its direct and indirect dependencies and of the preloaded libraries. Cycles, missing dependencies, duplicate identifiers of libraries or models, port types defined differently (or again) along a dependency, and port types that are not visible are refused; preloaded libraries are left as they were, and a given library of the same identifier takes the place of a preloaded one.",
    ["configurations", "inputs"], "all dependency graphs of three libraries with shared or distinct port types, random larger ones with preloaded libraries and models using them",
    "Tests resolve four fixed library files.",
    [MOD + "resolve_library.py", MOD + "library.py", MOD + "parsing.py"],
    [("resolve_library", MOD + "resolve_library.py"), ("_add_dependencies_to_stack", MOD + "resolve_library.py"), ("parse_yaml_library", MOD + "parsing.py")],
    {"library": {"accepted", "rejected", "names", "port types", "preloaded"}})

PROPERTIES["C21"] = P(
    "A model written in YAML becomes exactly the model it describes",
    "Each variable, parameter, constraint, binding constraint, port, port field definition and objective of a YAML model is present in the resolved model, once, in order, under its name, with its expressions read in the names of that model. Flags left out take their documented defaults (variables vary with time and scenario, parameters do not, kind continuous, bounds open, operational context), and unknown keys, missing required keys, unknown names or an inconsistent model are refused.",
    ["programs", "inputs"], "random textual models covering every field present or left out, with expressions from the grammar and single corruptions",
    "Tests compare one or two models against a hand-built one.",
    [MOD + "resolve_library.py", MOD + "parsing.py", MOD + "model.py"],
    [("_resolve_model", MOD + "resolve_library.py"), ("_to_constraint", MOD + "resolve_library.py"), ("InputModel", MOD + "parsing.py")],
    {"library": {"variables", "parameters", "constraints", "ports", "objective", "contexts", "names", "accepted", "rejected"}})

PROPERTIES["C22"] = P(
    "A study on disk becomes exactly the optimisation problem it describes",
    "Reading a study (libraries, system file, series files, optional scenario builder) through the library functions or the command line builds the problem of that system: every component and connection, every parameter with the values of its file or number and its own time and scenario dependence, on the asked horizon and number of scenarios. With a scenario builder each group reads for each year the scenario listed for it. A study with an unknown model, component, port, group or file, an ambiguous connection, a repeated year or identifier, or data that does not fit is refused.",
    ["configurations", "inputs"], "random studies written to disk (models, systems, series, builders, single corruptions), through the functions and the command line",
    "Tests read a couple of fixed studies and check an optimum.",
    [SRC + "study/parsing.py", SRC + "study/resolve_components.py", SRC + "study/data.py", SRC + "main/main.py"],
    [("resolve_components_and_cnx", STU + "resolve_components.py"), ("build_data_base", STU + "resolve_components.py"), ("build_scenarized_data_base", STU + "resolve_components.py"), ("main_cli", SRC + "main/main.py")],
    {"study": set()}, assumptions=["solver variable names that coincide through underscores are not generated"])

ANT = SRC + "input_converter/src/"
PYP = SRC + "pypsa_converter/"
LIB = SRC + "libs/"

PROPERTIES["C23"] = P(
    "An Antares study is converted without loss, duplication or mix-up",
    "Converting an Antares study gives one component per area, cluster, storage, link and non-empty load, wind or solar series, under its own identifier, with its properties in the parameters of the same meaning and its series in the files they point to, joined to its area by one connection (two for a link). It holds nothing else, through the object, the YAML file or the command line (written where asked), as often as it is converted; the system can be built with the shipped libraries and gives the problem of the study.",
    ["configurations", "inputs"], "random Antares studies on disk (areas, links, clusters, storages, series present, empty or absent), read from the study, its path or the command line",
    "Tests convert one component of each kind and compare it to a fixed result.",
    [ANT + "converter.py", ANT + "main.py", ANT + "utils.py", LIB + "antares_historic/antares_historic.yml"],
    [("AntaresStudyConverter", ANT + "converter.py"), ("transform_to_yaml", ANT + "utils.py")],
    {"antares": {"rejected", "areas", "components", "connections", "identifiers", "problem"}},
    assumptions=["clusters are enabled", "the area of virtual batteries holds nothing else"])

PROPERTIES["C24"] = P(
    "Thermal series and virtual batteries of an Antares study are derived correctly",
    "For every hour and scenario a converted thermal cluster has the smaller of its modulated minimum and its available power as minimum generation, the numbers of units these powers require (rounded up), and as maximal variations the decrease and increase of the units from the previous hour of its period. An area gets a battery exactly when all the objects of a virtual battery are present, with the capacities, efficiencies, modulations and cost of those objects, which are then not converted themselves; other areas are unaffected.",
    ["configurations", "inputs"], "random clusters, modulations, series, periods; random sets of battery objects with any of them missing, in several areas",
    "Tests convert one cluster and one battery with constant series.",
    [ANT + "data_preprocessing/thermal.py", ANT + "data_preprocessing/binding_constraints.py", ANT + "converter.py", SRC + "input_converter/data/model_configuration/battery.yaml"],
    [("ThermalDataPreprocessing", ANT + "data_preprocessing/thermal.py"), ("BindingConstraintsPreprocessing", ANT + "data_preprocessing/binding_constraints.py")],
    {"antares": {"thermal", "batteries", "connections", "rejected"}},
    assumptions=["nominal capacities are not zero", "minimal up times are at least 1"])

PROPERTIES["C25"] = P(
    "The shipped Antares and reference models state their documented equations",
    "A system made of the shipped areas, loads, links, renewables, thermal clusters, short-term storages, batteries, demand response and electrolysers gives exactly the variables with their bounds and kind, the equations (balance, dispatch limits, unit dynamics, minimum up and down durations, cyclic storage levels) and the expected cost those models document. This holds for every horizon, number of scenarios, data and wiring.",
    ["configurations", "inputs"], "random systems of the shipped models with random data, horizons, scenarios and connections",
    "Tests solve a few systems and look at the optimal cost.",
    [LIB + "antares_historic/antares_historic.yml", LIB + "reference_models/andromede_v1_models.yml"],
    [("antares-historic", LIB + "antares_historic/antares_historic.yml"), ("andromede-v1-models", LIB + "reference_models/andromede_v1_models.yml")],
    {"shipped": {"antares " + c for c in ("accepted", "rejected", "duplicates", "variables", "constraints", "objective")}},
    assumptions=["data inside constraints are finite"])

PROPERTIES["C26"] = P(
    "The shipped PyPSA models state the equations of the PyPSA components",
    "A system made of the shipped PyPSA buses, loads, generators, links, storage units, stores and CO2 constraints gives exactly the variables with their bounds, the nodal balances, capacity limits, energy limits, storage dynamics with losses and cyclic time, the emission limits and the operating and investment costs of those components. This holds for every horizon, number of scenarios, data and wiring.",
    ["configurations", "inputs"], "random systems of the shipped models with random data, horizons, scenarios and connections",
    "The tests comparing with PyPSA need PyPSA itself and a few networks.",
    [LIB + "pypsa_models/pypsa_models.yml"],
    [("pypsa_models", LIB + "pypsa_models/pypsa_models.yml")],
    {"shipped": {"pypsa " + c for c in ("accepted", "rejected", "duplicates", "variables", "constraints", "objective")}},
    assumptions=["data inside constraints are finite"])

PROPERTIES["C27"] = P(
    "A PyPSA network is converted faithfully, or refused",
    "Every bus, load, generator, link, storage unit, store and CO2 constraint of a network becomes one component with its attributes (series where they vary, fixed capacity at no investment cost when not extendable, the emissions of its carrier, infinite values cut to 1e20), connected to its buses and, when it has a carrier, to every CO2 constraint. The system gives the problem of the network. Networks outside what is supported (several periods, weighted snapshots, quadratic costs, unit commitment, inactive or acyclic components, lines, other global constraints, missing attributes) are refused.",
    ["configurations", "inputs"], "random networks with random attributes, series, carriers, constraints, and single unsupported features",
    "The tests need PyPSA itself and a few networks.",
    [PYP + "pypsa_converter.py", PYP + "utils.py", LIB + "pypsa_models/pypsa_models.yml"],
    [("PyPSAStudyConverter", PYP + "pypsa_converter.py"), ("any_to_float", PYP + "utils.py")],
    {"pypsa": set()},
    assumptions=["names of links do not clash with those of other components", "the tables of a network are those of pypsa, through a stand-in"])
