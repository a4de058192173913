"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
LP = "hadar/optimizer/lp/optimizer.py"; MAP = "hadar/optimizer/lp/mapper.py"; DOM = "hadar/optimizer/lp/domain.py"
INP = "hadar/optimizer/domain/input.py"; NUM = "hadar/optimizer/domain/numeric.py"; OUT = "hadar/optimizer/domain/output.py"
ANA = "hadar/analyzer/result.py"; PIP = "hadar/workflow/pipeline.py"; SHU = "hadar/workflow/shuffler.py"
REM = "hadar/optimizer/remote/optimizer.py"; ABC = "hadar/viewer/abc.py"; HTML = "hadar/viewer/html.py"; UTI = "hadar/optimizer/utils.py"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Energy is balanced on every node of every solved study",
 "In every result returned by the linear optimizer, at every node of every network, every time step and every scenario, the consumption that was given equals production used plus storage flow out minus storage flow in, plus link flows arriving minus link flows leaving (within the node's network), plus converter output delivered to the node minus converter input taken from it. No element may create or lose energy at a node, whatever the number and names of the elements and links (a link from a node to itself nets to zero).",
 ["inputs", "configurations"], "every study that can be built (any number of networks, nodes, elements, links, converters, scenarios, time steps, values) and solved locally",
 "Tests solve about ten hand-made studies (mostly one scenario, two or three nodes, one storage or converter) and compare with expected constants; a missing or misplaced term only shows in particular combinations (several storages on a node, equal node names in two networks, self links, several scenarios).",
 [LP, MAP, DOM], [("adequacy constraint per (t, network, node)", LP + ":AdequacyBuilder"), ("result mapping", MAP + ":OutputMapper.set_node_var / set_converter_var")],
 [("dispatch", "all element quantities at (scenario, t)", OUT + ":Result")], ["LPOptimizer.solve return value"])

prop("C02", "Dispatch never exceeds the declared availability",
 "In every result returned by the linear optimizer, every quantity lies between zero and the limit that the study declares for that very element, scenario and time step: production used, link flow, consumption given, storage level, storage flow in and flow out, converter output, and converter input (limit divided by the source ratio). Each element of the study appears in the result exactly once, under its own network, node and name or destination, in study order, with one value per scenario and time step.",
 ["inputs", "configurations"], "every buildable study, every element kind, every value shape (scalar, per time step, per scenario, full matrix)",
 "Tests compare a few optimal solutions with literals where most limits are scalars and not binding; swapped limits (flow in against flow out, another scenario's column) need data where the limits differ and bind.",
 [MAP, LP, OUT], [("variable bounds", MAP + ":InputMapper.get_node_var / get_conv_var"), ("result skeleton", OUT + ":OutputNode.build_like_input")],
 None, ["LPOptimizer.solve return value"])

prop("C03", "Storage level is continuous over time",
 "For every storage of every solved study and every scenario, the level at the end of each time step equals the level at the end of the previous step (the initial capacity before the first step) plus efficiency times flow in minus flow out, with the efficiency of that scenario and step. This holds for each storage independently, whatever other storages with the same or different names exist on the same or other nodes and networks.",
 ["inputs", "histories", "configurations"], "every buildable study with any number of storages, any horizon and number of scenarios",
 "Tests have a single storage per study and at most a handful of steps; continuity is a property of the whole history of a storage and of all storages at once.",
 [LP, MAP], [("storage recurrence constraint", LP + ":StorageBuilder.add_node")],
 [("level", "stored energy at end of step", OUT + ":OutputStorage.capacity")], ["LPOptimizer.solve return value"])

prop("C04", "Converters deliver exactly ratio times what each source supplies",
 "For every converter of every solved study, at every time step and scenario, the delivered output equals each source's input multiplied by that source's ratio for that step and scenario, so all sources are drawn in the fixed proportions given by their ratios. Sources are identified by network and node together, whatever the names.",
 ["inputs", "configurations"], "every buildable study with any number of converters, sources, ratio shapes, networks",
 "One integration test has a converter with two sources and one scenario; several converters, time-varying ratios or equal node names in several networks are not sampled.",
 [LP, MAP, DOM], [("mix constraint", LP + ":ConverterMixBuilder"), ("keying of sources", DOM + ":LPConverter.from_json")],
 None, ["LPOptimizer.solve return value"])

prop("C05", "The dispatch returned is a minimum-cost one",
 "For every scenario of every solved study, no dispatch satisfying node balance, element limits, storage continuity and converter ratios has a lower total cost than the one returned. The cost of a dispatch is the sum over the horizon of production used, link flow, storage level, converter output and consumption not given, each multiplied by the cost declared for that element, scenario and time step.",
 ["inputs", "configurations"], "every buildable and feasible study, including zero costs, equal costs, many elements, time-coupled storage decisions and converters",
 "Tests compare a handful of optimal solutions with literals; optimality quantifies over all alternative dispatches, and a forgotten or mis-indexed cost coefficient only matters where it changes the merit order.",
 [LP, MAP], [("objective", LP + ":ObjectiveBuilder"), ("minimisation", LP + ":_solve_batch")],
 None, ["LPOptimizer.solve return value"])

prop("C06", "Scenarios are solved independently and in study order",
 "The part of a result that belongs to one scenario depends only on that scenario's data: it is a dispatch of the same cost as if that scenario had been solved alone, stored at that scenario's index, whatever the other scenarios, the number of workers and the order in which parallel workers start and finish. Solving does not modify the study, and solving it again gives the same costs.",
 ["schedules", "inputs", "histories"], "every study and every assignment and completion order of the parallel scenario jobs, and every repetition of the call",
 "Unit tests mock the worker function or use one or two scenarios; they never control the order in which workers run, and never compare with the scenario solved alone.",
 [LP, MAP], [("pool map and gather by index", LP + ":solve_lp"), ("per-scenario job", LP + ":_solve_batch")],
 None, ["LPOptimizer.solve return value", "study attributes after the call"])

prop("C07", "No result is invented for an unsolvable study",
 "When some scenario of a study admits no dispatch that satisfies balance, limits, storage continuity and converter ratios, a local solve raises an error instead of returning a result. When every scenario admits one, solve returns a result and does not raise.",
 ["inputs"], "every buildable study, infeasible ones (for example storage that starts above its capacity and cannot be emptied) as well as feasible boundary cases",
 "No test has an infeasible study; feasibility must be decided for every study, at the exact boundary.",
 [LP], [("solver status check", LP + ":_solve_batch")], None, ["LPOptimizer.solve return value or exception"])

prop("C08", "Numeric inputs mean the same value everywhere they are given",
 "A numeric argument given as a number applies to all scenarios and steps; a sequence of length horizon gives one value per step for all scenarios; a table of shape (scenarios, 1) gives one value per scenario for all steps; a table of shape (scenarios, horizon) gives each value individually. This holds for plain numbers and numpy numbers, lists, numpy arrays of any real type, and pandas objects, for every quantity and cost of every element, as observed through the built study, the solved result and the analysis tables alike; any other shape or type is rejected with ValueError, and reading beyond the declared scenarios or horizon raises IndexError. The values are those at the time of the call: the study neither modifies the caller's container nor follows its later changes.",
 ["inputs", "configurations"], "every horizon, number of scenarios, shape, container kind and element field",
 "Tests try one shape per container on one factory with fixed sizes; the agreement between element access and flattened tables and the rejection of near-miss shapes must hold for all sizes, including horizon or scenario count one and equal to each other.",
 [NUM, INP], [("shape dispatch", NUM + ":NumericalValueFactory.create"), ("element access and flattening", NUM + ":NumericalValue subclasses")],
 None, ["study element values", "ResultAnalyzer tables"])

prop("C09", "Invalid studies are rejected and a rejected call changes nothing",
 "Building a study rejects with ValueError every production, consumption or link whose quantity is negative anywhere, every storage with a flow, capacity or initial capacity negative anywhere or an efficiency outside [0, 1] anywhere, a duplicated element name of the same kind on a node, a duplicated link destination on a node, a link between unknown nodes, a second destination for a converter, a converter destination that does not exist, and a source node given twice to a converter; every other value of a valid shape is accepted. A rejected call leaves the study exactly as it was before the call.",
 ["inputs", "histories"], "every sequence of building calls, with every value shape and every position of an offending value",
 "Tests try single offending scalars on a fresh study; mixed-sign series, and what remains in the study after a rejected call in the middle of a history, are not looked at.",
 [INP, NUM], [("validation in add methods", INP + ":Study"), ("comparison operators", NUM + ":NumericalValue")],
 None, ["exceptions", "study attributes", "Study.to_json"])

prop("C10", "Every fluent building call lands on the element it was addressed to",
 "Each call made on a network or node handle of the study builder affects exactly the network and node that the handle was obtained for, however handles are stored, reused or interleaved, and the same name in another network or on another node denotes a different element. Elements appear in the study in the order of the calls with the arguments given, and declaring an existing network, node or converter again keeps its content.",
 ["histories", "programs"], "every interleaving of building calls on any number of handles over several networks and nodes",
 "Tests write one linear call chain per study; handles kept in variables and interleaved chains are a space of histories they do not sample.",
 [INP], [("selectors", INP + ":NetworkFluentAPISelector, NodeFluentAPISelector")], None, ["study attributes after every call"])

prop("C11", "A study survives JSON serialization unchanged",
 "For every study, converting it to JSON, through JSON text and back gives a study with the same horizon, scenarios, version, networks, nodes, elements, links, converters and values, equal to the original, that converts to the same JSON again and can be used to add elements and to solve exactly as the original. Neither conversion modifies its argument, and the two studies do not share mutable state. Two studies are equal exactly when they hold the same content.",
 ["inputs", "histories"], "every buildable study with every value shape and every element kind, serialized at any point of its construction",
 "One test round-trips one study with scalar-like data and compares with the same class's equality.",
 [INP, NUM, UTI], [("to_json / from_json", INP + ":Study and element classes"), ("conversion of values", UTI + ":JSON.convert")], None, ["Study.to_json", "Study.from_json"])

prop("C12", "A result survives JSON serialization unchanged",
 "For every result, converting it to JSON, through JSON text and back gives a result with the same networks, nodes, elements, names, destinations, converter sources, benchmark and numerical values in the same order, equal to the original, converting to the same JSON again, and yielding the same analysis. Neither conversion modifies its argument, so the same JSON document can be loaded any number of times. Two results are equal exactly when they hold the same content.",
 ["inputs", "histories"], "every result of every study, repeated conversions",
 "One test round-trips one tiny result once.",
 [OUT, UTI], [("to_json / from_json", OUT + ":Result and element classes")], None, ["Result.to_json", "Result.from_json"])

prop("C13", "Remote solving follows the job protocol to its end",
 "A remote solve submits the study exactly once, then asks for that job's result, with the token on every request, until the job is neither queued nor computing, and makes no request after the end. It returns exactly the result sent by the server for a finished job, raises the server's error message for a failed job, and raises ValueError for HTTP 404 or 403 and IOError for HTTP 500 at whichever request they occur; it never returns a result in another case.",
 ["fault_sequences", "histories"], "every finite sequence of server answers: any number of queued and computing answers in any order, any end, any HTTP error at any request",
 "One test runs a canned server with one fixed answer sequence; error codes are only tested on the helper function.",
 [REM, OUT], [("polling loop", REM + ":solve_remote"), ("status mapping", REM + ":check_code")], None, ["HTTP requests received by a server", "RemoteOptimizer.solve return value or exception"])

prop("C14", "Analysis tables hold one correct row per element, step and scenario",
 "For every study and result, the analyzer's consumption, production, storage, link, converter-source and converter-destination tables contain exactly one row per element (for sources: per converter and source), scenario and time step, carrying that element's own name, node, network, destination, inputs and result values at that scenario and step. The element counts and node lists reported for a node, a network or the whole study agree with the study.",
 ["inputs", "configurations"], "every study and result, any number of elements per node, networks, scenarios, steps, value shapes",
 "Tests build tables for one element per node with one scenario mostly; offsets between elements, label/value misalignment with several sources or scenarios and lost rows need several elements at once.",
 [ANA], [("flattening", ANA + ":ResultAnalyzer._build_*")], None, ["ResultAnalyzer attributes consumption, production, storage, link, src_converter, dest_converter", "get_elements_inside", "nodes"])

prop("C15", "Fluent queries return exactly the selected data",
 "A fluent query naming network, node, scenario, time and one element kind in any order returns exactly the table rows matching every selector (a single value, a list, a slice or everything), with values unchanged, indexed by the selectors in the order they were given, the leading selectors that name one existing value being removed from the index. The answer depends only on the selectors of that query: partially built queries can be stored and reused, queries do not modify the analyzer, and a query naming node, scenario, time or an element kind twice is refused.",
 ["inputs", "programs", "histories"], "every order and combination of selectors and selector kinds on every result, any reuse of partial queries",
 "Tests issue about eight fixed queries; the space of orders, selector kinds and reuse is combinatorial.",
 [ANA], [("index filters", ANA + ":Index, IntIndex"), ("pivot and level removal", ANA + ":ResultAnalyzer._pivot"), ("selector", ANA + ":NetworkFluentAPISelector")], None, ["query result DataFrame"])

prop("C16", "Reported costs are the costs of the dispatch",
 "For every study and result, the cost reported per scenario and step for a node is the sum over that node's elements of consumption not given, production used, storage level, outgoing link flow and delivered converter output, each times its declared cost at that scenario and step. The cost of a network is the sum over its nodes and the cost of the study the sum over its networks; a node asked without network is looked up in the default network.",
 ["inputs", "configurations"], "every study and result, any combination of element kinds on a node, any shapes, several scenarios and networks with equal node names",
 "Tests check the cost of two nodes of fixed studies; aggregation and alignment must hold for all combinations.",
 [ANA], [("cost aggregation", ANA + ":ResultAnalyzer.get_cost")], None, ["ResultAnalyzer.get_cost"])

prop("C17", "Node balance reports exports minus imports",
 "For every study and result, the balance reported for a node is, per scenario and step, the sum of the flows on links leaving the node minus the sum of the flows on links arriving at it, within the asked network only (the default network unless named). Over all nodes of a network the balances sum to zero.",
 ["inputs", "configurations"], "every study and result, any link topology, networks with equal node names, nodes without links",
 "One test checks a chain of links in one network and one scenario.",
 [ANA], [("balance aggregation", ANA + ":ResultAnalyzer.get_balance")], None, ["ResultAnalyzer.get_balance"])

prop("C18", "Remaining available capacity is spare production minus unserved load",
 "For every study and result and every network, the remaining available capacity reported per scenario and step equals the sum of available minus used production, minus the sum of asked minus given consumption, over exactly the elements of that network. A network without productions or without consumptions counts zero for the missing part.",
 ["inputs", "configurations"], "every study and result, networks with any number of elements including none",
 "One test checks one study.",
 [ANA], [("rac aggregation", ANA + ":ResultAnalyzer.get_rac")], None, ["ResultAnalyzer.get_rac"])

prop("C19", "Pipelines accept exactly the stage chains that can run",
 "Chaining stages is rejected with ValueError exactly when some stage requires a column that the columns guaranteed by the chain before it do not provide, and adding anything but a stage is rejected likewise; an accepted pipeline requires of its data exactly the columns it declares, rejects data lacking one of them before running any stage, and otherwise runs to the end and its output contains every column it declares. Composition never alters the stages or pipelines it is made of: a stage or a pipeline may be used in several pipelines with the same meaning in each.",
 ["programs", "histories"], "every chain of stages (free and restricted, any inputs and outputs), every way of grouping and reusing them, every set of data columns",
 "Tests compose two or three stages once each; acceptance soundness quantifies over all chains and all reuse histories.",
 [PIP], [("plug algebra", PIP + ":FreePlug, RestrictedPlug"), ("composition", PIP + ":Pipeline.__init__, Pipeline.__add__, Stage.__add__")], None, ["exceptions", "pipeline outputs"])

prop("C20", "Each workflow stage does what its name says, for every scenario",
 "Clip bounds every value and changes no other, Rename changes column names only, Drop removes exactly the named columns in every scenario, RepeatScenario yields n copies of every scenario with its own data under consecutive scenario numbers, and a stage written for one scenario is applied to every scenario separately; row order, row count and untouched columns are preserved. Running a pipeline equals running its stages one after the other, data without a scenario level is treated as the single scenario 0, and the data given by the caller is never modified.",
 ["inputs", "programs"], "every data frame (any columns order, scenarios, index, values) and every stage configuration and chain",
 "Tests run each stage once on a frame with sorted columns and default index.",
 [PIP], [("stages", PIP + ":Clip, Rename, Drop, RepeatScenario, FocusStage"), ("column standardisation", PIP + ":Stage.standardize_column")], None, ["stage and pipeline return values", "caller's DataFrame"])

prop("C21", "Generated faults respect loss, frequency, duration and seed",
 "A fault stage subtracts from the quantity column, scenario by scenario, a sum of outages inside the horizon, each lowering the quantity by the given loss over consecutive steps for a duration between the minimal and maximal downtime (or until the horizon ends), and changes nothing else; frequency zero changes nothing and frequency one produces as many outages as steps. Every step can be the begin of an outage and every duration below the maximal downtime occurs. With a seed, the same outages are produced every time, other ones with another seed; without a seed, outages differ between calls and scenarios, and their average number is frequency times horizon.",
 ["inputs", "schedules"], "every parameter choice, data frame and random draw",
 "One seeded test compares one draw with a literal; the shape of all draws and the role of the seed (including seed 0) are not covered.",
 [PIP], [("fault generation", PIP + ":Fault._process_scenarios"), ("reseeding", PIP + ":Stage.__call__")], None, ["stage return values"])

prop("C22", "The shuffler samples whole scenarios of each timeline, independently",
 "For every set of registered timelines, shuffling returns, under each registered name, exactly the requested number of rows of horizon length, each of which is one complete scenario row of that name's data (for a pipeline: one scenario's output column of the pipeline run on its data). Rows are selected by the configured sampler over all scenarios of that timeline, independently for each timeline and each call, whatever the parallel schedule; registering a pipeline that does not accept its data or does not end in the shuffler column is rejected, and registered data is not modified.",
 ["inputs", "schedules", "histories"], "every set of raw and pipeline timelines, number of scenarios, sampler, parallel schedule and repetition of calls",
 "Tests use two timelines with a mocked sampler or check only shapes.",
 [SHU, PIP], [("sampling", SHU + ":Timeline.sample"), ("parallel computation", SHU + ":Shuffler.shuffle, compute")], None, ["Shuffler.shuffle return value"])

prop("C23", "Element plots show the data of the element that was asked for",
 "For every study and result, timeline, monotone and gaussian plots of a consumption, production, link, storage or converter flow show exactly that element's values (of the asked kind) for all scenarios and steps, or for the single step or scenario asked for, monotone sorted in descending order and gaussian points split by the sign of the remaining available capacity at the same scenario or step. Storage candles open at the previous level and close at the next, starting from the initial capacity; time axes carry the study's steps in order, as evenly spaced dates when a first and a last date were given (giving only one of them is rejected with ValueError); asking for both a step and a scenario is rejected with ValueError. The gaussian curve is the one of the mean and standard deviation of the values shown; the title names the element and its node (both ends of a link) and the step or scenario asked for, and the quantity axis carries the unit.",
 ["inputs", "configurations"], "every study and result, every element, kind, step and scenario",
 "Tests hash one figure per plot of one fixed study with one element of each kind.",
 [ABC, HTML], [("element selectors", ABC + ":*FluentAPISelector"), ("figures", HTML + ":HTMLElementPlotting")], None, ["data passed to the drawing backend", "plotly figure data"])

prop("C24", "Node and network plots show balanced aggregates",
 "For every study and result, the stack of a node shows one area per production, storage discharge, incoming converter and net import, and one line per consumption, storage charge, outgoing converter and net export, each cumulated in order with that element's values in the asked scenario, so that with the kinds used and given the stacked areas and lines of a solved study have the same total. The exchange map shows each node's balance and the net flow between each pair of linked nodes in its direction, and the matrix plot shows the remaining available capacity of every scenario and step, its title the share of cells that are not negative. The titles of stack and map give the node, or the step and scenario, asked for.",
 ["inputs", "configurations"], "every study and result, every node, scenario, step and set of elements",
 "Tests hash one figure per plot of one fixed study.",
 [ABC, HTML], [("node stack, map, matrix", ABC + ":NodeFluentAPISelector.stack, NetworkFluentAPISelector.map / rac_matrix"), ("figures", HTML + ":HTMLElementPlotting")], None, ["data passed to the drawing backend", "plotly figure data"])

prop("C25", "Every local result says how long each scenario took",
 "The benchmark of a result returned by the linear optimizer holds exactly one modelling and one solving duration per scenario of that solve, a total and a gathering duration. None is negative or longer than the solve call took; a scenario's solving duration, measured from the start of its modelling, is not shorter than its modelling duration and not longer than the total. Solving again, or solving another study, starts a new benchmark.",
 ["inputs", "schedules", "histories"], "every study, number of scenarios, worker schedule and sequence of solves",
 "No test looks at the benchmark of a solve; timings vary from run to run so that only relations between them can be stated.",
 [LP], [("clock readings", LP + ":solve_lp, _solve_batch"), ("benchmark", OUT + ":Benchmark")], None, ["Result.benchmark"])

prop("C26", "Independent objects do not influence each other",
 "Studies, optimizers, analyzers, plots, pipelines and shufflers that live in one process are independent: what an operation on one of them answers depends only on what that object was made from and on the operations made on it, exactly as if it were alone in its process (random draws apart), whatever other objects of the same or another kind exist or existed before, with the same or other names, shapes and values, and however operations on them are interleaved. Analyzers and plots of the same study with different results are independent likewise. An answer once given (result, JSON document, table, array, figure, generated timelines) does not change when other objects, or the same one, are used later.",
 ["histories", "schedules", "programs"], "every set of objects and every interleaving of their operations",
 "Each test works on its own objects, mostly one at a time; sharing (mutable defaults, class attributes, caches, aliased arrays) only shows in company.",
 [INP, LP, ANA, ABC, PIP, SHU], [("construction", INP + ":Study.__init__"), ("solving", LP + ":solve_lp"), ("analysis", ANA + ":ResultAnalyzer.__init__"), ("plots", ABC + ":Plotting"), ("workflow", PIP + ":Pipeline, Stage"), ("shuffler", SHU + ":Shuffler")], None, ["every public answer of every object"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
