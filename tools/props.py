"""The properties and what decides them (source of properties.jsonl and MANIFEST.json)."""
HARNESSES = ["logs", "stats", "api"]
NA = []
NOTES = ("Runtime monitoring of the real code. The C++ is compiled from /repo's working tree (as it is, and with address+undefined "
         "behaviour sanitizers) against a small stand-in for the SCIP C++ headers and a minimal pybind11, and linked to the real SCIP "
         "library that PySCIPOpt ships; no hooks in /repo are needed. See DESIGN.md.")

SOLVE_FILES = ["src/algorithms.cpp", "src/subtour_elimination.cpp", "src/cost_cover.cpp", "src/cycle_cover.cpp", "src/separation.cpp", "src/solution.cpp", "src/sciputils.cpp", "pctsp/algorithms/algorithms.py"]
TRUST = " Trusts SCIP, networkx and the oracle code in /verif; SCIP headers and pybind11 are replaced by small stand-ins."
PROPS = []


def P(id, title, statement, q, why, files, mech, obs, tech, note, over=("inputs",)):
    PROPS.append(dict(id=id, title=title, statement=statement, q=q, why=why, files=files, mech=mech, obs=obs if isinstance(obs, list) else [obs],
                      tech=tech, note=note, over=list(over)))


P("S01", "Returned tours are feasible and node and time limits are respected",
  "Whenever the branch and cut algorithm returns a non-empty edge list, those edges form one simple cycle of the input graph through the root whose vertices' prizes add up to at least the quota. "
  "This holds for every combination of solver options and also when a time limit or node limit stops the search early.",
  "all undirected graphs with a root, costs, prizes and a quota; all option combinations; all points at which a limit stops the search",
  "The Python solver is not built by the existing tests at all, and a test pins single instances; a wrong tour shows only for some graph, option and cut combination.",
  SOLVE_FILES, [("edge variables of the best solution turned into a tour", "src/solution.cpp, src/algorithms.cpp"), ("subtour check of every candidate", "src/subtour_elimination.cpp")],
  "return value of the Python solver call", "online oracle on returned solutions (random and structured graphs, limits)",
  "Held on the executions explored: graphs up to 30 vertices, every returned edge list judged by definition." + TRUST, ("inputs", "configurations"))
P("S02", "The solver's answer is optimal, and infeasible exactly when no tour exists",
  "If the branch and cut algorithm runs to completion, the cost of the tour it returns is the smallest over all simple cycles through the root that meet the quota. "
  "It returns no tour exactly when no such cycle exists, whatever cutting planes, branching rules, cost cover bounds or starting tours are enabled.",
  "all instances; all option combinations", "Optimality quantifies over all tours and all interactions of cuts, branching and propagation; tests compare a few known optima.",
  SOLVE_FILES + ["src/branching.cpp", "src/node_selection.cpp"], [("prize, degree, root and subtour constraints", "src/algorithms.cpp"), ("cut separation and cost cover", "src/separation.cpp, src/cost_cover.cpp")],
  "returned edges, solver status", "differential monitoring against exhaustive enumeration / Held-Karp",
  "Held on the explored small instances (up to 8 vertices by enumeration, up to 13 by subset dynamic programming) under random options." + TRUST, ("inputs", "configurations"))
P("S03", "No cutting plane excludes a feasible tour",
  "Every subtour elimination, maximum flow and cycle cover inequality that is added while solving is satisfied by the incidence vector of every simple cycle through the root that meets the quota.",
  "all instances, all fractional points reached during the search, all separation options", "An over-strong cut silently removes optimal tours only for particular LP points; tests never look at individual cuts.",
  ["src/subtour_elimination.cpp", "src/separation.cpp", "src/cycle_cover.cpp", "include/pctsp/subtour_elimination.hh", "include/pctsp/separation.hh"],
  [("components and min cuts of the support graph", "src/separation.cpp"), ("subtour inequality", "src/subtour_elimination.cpp"), ("cycle cover inequality", "src/cycle_cover.cpp")],
  "rows and constraints handed to the solver library (recorded at the library boundary)", "offline checker over recorded cut events",
  "Every recorded global row is evaluated on every enumerated tour of the logged instance." + TRUST, ("inputs", "configurations"))
P("S04", "Cost cover inequalities never exclude a tour that is at least as good",
  "Each inequality added because visiting a vertex is too expensive keeps every feasible tour whose cost is not above the best tour known when it was added, whether the bound is the shortest path distance or the caller's disjoint path costs. "
  "When such inequalities are enabled, a vertex whose bound exceeds the cost of a newly found tour is in fact excluded.",
  "all instances, all incumbents found during the search", "The inequality depends on the moment and value of each new incumbent.",
  ["src/cost_cover.cpp", "include/pctsp/cost_cover.hh", "src/algorithms.cpp"], [("handler reacting to a new best solution", "src/cost_cover.cpp")],
  "new incumbents and added constraints (recorded at the library boundary)", "offline checker over the recorded incumbent / constraint history",
  "Checks every recorded inequality against all enumerated tours no dearer than the incumbent at that moment." + TRUST, ("inputs", "histories"))
P("S05", "Candidates are accepted exactly when they are tours",
  "Each time the solver asks whether an integral candidate is acceptable, the answer is yes exactly when the candidate is one simple cycle through the root (its vertex variables agreeing with its edges). "
  "A rejected candidate is cut off or separated, so the search always makes progress; and when a constraint of this library declares a part of the search hopeless, no better feasible tour lies in it.",
  "all integral candidates produced by the LP or by primal heuristics", "Candidates arise deep inside the search; the tests see final answers only.",
  ["src/subtour_elimination.cpp", "src/cycle_cover.cpp", "src/solution.cpp"], [("candidate check and enforcement of the subtour constraint", "src/subtour_elimination.cpp")],
  "constraint handler verdicts (recorded at the plugin boundary)", "online comparison of recorded verdicts with a definition of a tour",
  "All verdicts recorded in random runs." + TRUST, ("inputs", "histories"))
P("S06", "The run summary agrees with what happened",
  "The summary file written after solving reports a lower bound, upper bound and gap consistent with the true optimum and the returned tour, the real number of search nodes, and cut counters that match the cuts really added (zero when the corresponding option is off). "
  "Every field read back equals what was written. Files left in the directory by an earlier run are replaced, and the solver's own statistics beside the summary are those of the same run.",
  "all runs", "Counts and bounds are by-products of the search that no test compares with the events.",
  ["include/pctsp/stats.hh", "src/stats.cpp", "src/event_handlers.cpp", "src/algorithms.cpp"], [("summary of the solver's statistics", "src/stats.cpp, src/event_handlers.cpp")],
  "summary YAML file, recorded events", "offline comparison of the summary with the recorded event log",
  "One recorded finding (undercounted subtour cuts on a pinned instance) is listed in known-findings.txt." + TRUST, ("inputs", "histories"))
P("S07", "A starting tour is used and never makes the answer worse",
  "A feasible tour given as a starting solution is accepted by the solver with exactly its cost, the final answer never costs more than it, and the optimum is unchanged by giving it. "
  "If the search is stopped at once, by a limit on time, nodes or solutions, the answer is at worst the starting tour.",
  "all instances and feasible starting tours in any vertex order and direction", "Every edge order and graph relabelling must be mapped correctly; tests use one tour.",
  ["src/solution.cpp", "src/algorithms.cpp", "pctsp/algorithms/algorithms.py"], [("starting solution turned into a solver solution", "src/solution.cpp")],
  "solutions handed to the library; returned edges", "recorded starting solution compared with the tour; differential runs",
  "Random starting tours (random direction and edge orientation)." + TRUST)
P("S08", "The chosen branching strategy and depth are what the solver uses",
  "Selecting a branching strategy makes the corresponding branching rule the one with the highest priority (with its depth limit when one is given), and different strategies give different rule orders.",
  "all strategies and depth limits", "The configuration is visible only inside a running solver.", ["src/branching.cpp", "include/pctsp/branching.hh", "pctsp/algorithms/algorithms.py"],
  [("branching priorities set from the strategy", "src/branching.cpp")], "branching rule priorities read back when the search starts", "read-back of live solver state at the start of the search",
  "One recorded finding (the pseudo cost strategy leaves the default rules) is listed in known-findings.txt." + TRUST, ("configurations",))
P("S10", "Answers do not depend on vertex names, order or orientation",
  "Renaming the vertices of the input by any injective map, or listing vertices and edges in another order or orientation, does not change the cost of the answer or the feasibility verdict, and the answer uses the caller's vertex names.",
  "all instances and all relabellings", "Metamorphic over all permutations; tests use one labelling.",
  ["pctsp/algorithms/algorithms.py", "src/pygraph.cpp", "include/pctsp/renaming.hh", "include/pctsp/graph.hh"], [("renaming of vertices to a compact range and back", "include/pctsp/renaming.hh")],
  "return value for both labelings", "metamorphic monitor", "Random relabellings incl. large and sparse labels, isolated vertices." + TRUST)
P("S11", "Separation finds a violated subtour inequality when one exists",
  "Whenever the subtour separator runs on an LP solution in which some fully or partly visited part of the graph is disconnected from the root, or a fully visited vertex has less than two units of flow to the root (with the flow separator enabled), the separator adds an inequality violated by that LP solution.",
  "all LP solutions met during the search", "LP solutions are internal to the search.", ["src/separation.cpp", "src/subtour_elimination.cpp", "include/pctsp/separation.hh"],
  [("disconnected components and minimum cuts", "src/separation.cpp")], "LP values at separation and rows added in the same call", "offline checker over separation events",
  "Near-tight flow cases (within tolerance) are exempt." + TRUST, ("inputs", "histories"))
P("S12", "The solver's model is the instance",
  "The model the solver receives has one variable per edge and vertex with the instance's costs, and its constraints admit a 0/1 point exactly when every selected vertex has two selected edges, the root is selected and the selected prizes meet the quota. "
  "Nothing else restricts it before cutting planes are added.",
  "all instances", "Tests count constraints of single graphs at best.", ["src/algorithms.cpp", "include/pctsp/algorithms.hh", "include/pctsp/sciputils.hh", "src/sciputils.cpp"],
  [("model construction", "include/pctsp/algorithms.hh, src/algorithms.cpp")], "variables and constraints when the search starts", "read-back of the live model compared with the instance",
  "Compared on random instances." + TRUST)

HEUR = ["pctsp/algorithms/heuristic.py", "pctsp/algorithms/extension_collapse.py", "pctsp/algorithms/path_extension_collapse.py", "src/heuristic.cpp", "include/pctsp/heuristic.hh", "include/pctsp/walk.hh"]
P("H01", "Extending a tour keeps its vertices, root and order and adds prize",
  "Every extension heuristic turns a simple closed tour that starts and ends at the root into another one made of edges of the graph, whose prize is not smaller, and is strictly larger if the tour changed. "
  "With a step size of one, the vertices of the given tour all stay and keep their order.",
  "all graphs, tours, path depths and step sizes", "The C++ heuristics are not built by the tests; invariants must hold for every tour and tie.",
  HEUR, [("insertion of vertices and paths into a tour", "src/heuristic.cpp, include/pctsp/heuristic.hh")], "tours returned by the heuristics", "online oracle on returned tours over random instances",
  "Random graphs up to 14 vertices with ties and zero prizes." + TRUST)
P("H02", "Extension until feasible stops exactly at the quota",
  "Extending a tour until it collects the quota leaves a tour that already meets the quota unchanged; otherwise it goes on until the quota is met or no vertex can be inserted any more. "
  "It stops with the first insertion that meets the quota.",
  "all graphs, tours and quotas", "Stopping conditions depend on instance, tour and quota together.",
  HEUR, [("loop over extension steps", "include/pctsp/heuristic.hh")], "tours returned for the given quota and for smaller quotas", "online oracle on stopping points over random instances",
  "Random graphs up to 14 vertices." + TRUST)
P("H03", "Collapsing a tour keeps it feasible and never makes it dearer",
  "Collapsing a tour that meets the quota returns a tour through the root that still meets the quota and does not cost more than the given one. "
  "The result costs as little as the best way of closing a part of the tour that still meets the quota through one new vertex (or a shortest path, if that is asked for); a tour that misses the quota is left alone.",
  "all graphs, tours and quotas", "Depends on which chords exist and on the prize left after each shortcut.",
  HEUR, [("collapse of a tour", "src/heuristic.cpp, include/pctsp/heuristic.hh")], "tours returned by the collapse heuristics", "online oracle with an independent exact bound over random instances",
  "Random graphs up to 11 vertices." + TRUST)
P("H04", "Combined extension and collapse heuristics equal their phases and stay feasible",
  "Path extension and collapse returns a simple cycle through the root that meets the quota whenever extending the given tour with the step sizes allowed reaches the quota, and an empty list otherwise; it costs what its phases cost when they are run one after the other with the same parameters. "
  "Extension by gain followed by collapse costs the same as its two phases and never loses the quota that the extended tour meets.",
  "all graphs, starting tours, quotas and parameters", "The phases interact; tests use a few fixed graphs and are not run.",
  HEUR, [("composition of the phases", "pctsp/algorithms/extension_collapse.py, path_extension_collapse.py")], "returned tours", "differential monitor: composition versus combined run",
  "Random graphs up to 10 vertices." + TRUST)
P("H05", "Gain and loss rules pick the extension step they define",
  "Extension by unitary gain always inserts a vertex and position with the largest prize per extra cost, and path extension always replaces a piece of the tour by one with the smallest extra cost per extra prize (and more prize, without dropping the root), among all vertices and pieces of the step size asked for. "
  "Without a quota they go on while the best ratio beats the average of the first round; ties may be broken either way.",
  "all graphs, tours, step sizes, path depths", "The best step is defined over all insertions.",
  HEUR, [("unitary loss and gain of an extension", "src/heuristic.cpp, include/pctsp/heuristic.hh")], "tour after the heuristic", "oracle: independent reference of the exact set of permitted outcomes (ties included)",
  "Random graphs up to 9 vertices." + TRUST)
P("M01", "No call of the library has undefined behaviour or crashes",
  "Whatever valid graph, root, quota, options or starting tour a caller passes to the Python entry points of the compiled library, the call does not read or write outside its objects, use freed memory, overflow or otherwise have undefined behaviour. "
  "It ends with a result or a Python exception.",
  "all valid calls", "Memory errors show only under instrumentation and for particular sizes or callbacks.",
  ["src/algorithms.cpp", "src/heuristic.cpp", "src/separation.cpp", "src/event_handlers.cpp", "src/pygraph.cpp", "pctsp/pypctsp.cpp"], [("whole compiled library", "src, include/pctsp, pctsp/pypctsp.cpp")],
  "sanitizer reports, process exit", "address and undefined behaviour sanitizers with checked standard library over the whole API",
  "Address+undefined behaviour sanitizer, hardened libstdc++; the SCIP library itself is not instrumented." + TRUST, ("inputs", "configurations"))

HARN = " Driven through a harness program compiled with address and undefined behaviour sanitizers and checked containers."
P("G01", "Log levels are translated and filtered exactly",
  "Each Python logging level constant (50, 40, 30, 20, 10, 0) is translated to the library level of the same meaning, and every other integer to info. "
  "After a level is set, exactly the records at or above it are logged, each once and with a time stamp, whoever emits them (several threads included) and however often the level was changed before.",
  "all integers; all sequences of level changes and records; all threads", "The existing tests set one level and look at no output.",
  ["src/logger.cpp", "include/pctsp/logger.hh"], [("translation of levels", "src/logger.cpp"), ("global filter", "src/logger.cpp")],
  "records reaching a recording sink or the console", "online monitor on the records that reach the sink, random histories and threads",
  "Histories of up to 12 steps, up to 6 threads." + HARN, ("inputs", "histories", "schedules"))
P("G02", "Graph building blocks agree with their definitions",
  "Connected components (and those with two or more vertices) partition the vertices correctly; a set of edges is recognised as a simple cycle exactly when it is one simple cycle; the edges induced by a vertex set, self loops, marked subgraphs, edges of given vertex pairs, common neighbours and the vertices (un)reachable through positive capacity are exactly those of the definition. "
  "A missing edge or self loop is reported with an exception.",
  "all graphs and vertex or edge subsets", "Used on arbitrary fractional solutions inside the search; tests look at a few fixed graphs.",
  ["include/pctsp/graph.hh", "src/graph.cpp", "include/pctsp/data_structures.hh", "src/separation.cpp", "include/pctsp/subtour_elimination.hh", "include/pctsp/preprocessing.hh", "src/preprocessing.cpp"],
  [("components", "include/pctsp/data_structures.hh"), ("cycle recognition", "src/separation.cpp"), ("subgraphs", "include/pctsp/graph.hh")],
  "return values of the C++ functions", "comparison of every answer with an independent definition", "Graphs up to 14 vertices." + HARN)
P("G03", "Walks, tours and searches agree with their definitions",
  "The edges, cost and prize of a walk or tour are those of its steps and vertices (a missing edge is reported); rotating a tour to the root, cutting a part out of it and replacing a part keep every other vertex in its order, also across the point where the tour closes; "
  "depth limited searches reach exactly the vertices they should and give back real paths; the shortest path that avoids given vertices is found exactly when it exists and is shortest.",
  "all graphs, walks, positions, depth limits and blocked vertices", "Wrap-around positions and blocked vertices are combinations that single examples miss.",
  ["include/pctsp/walk.hh", "include/pctsp/graph.hh", "src/graph.cpp", "include/pctsp/heuristic.hh"], [("walk sums", "include/pctsp/walk.hh"), ("depth limited searches", "include/pctsp/graph.hh"), ("replacing a part of a tour", "include/pctsp/heuristic.hh")],
  "return values of the C++ functions", "comparison of every answer with an independent definition", "Graphs up to 12 vertices, walks up to 13 vertices." + HARN)
P("G04", "Renaming vertices is a bijection and carries costs and prizes over",
  "Renaming the edges of a graph numbers its vertices 0, 1, ... in order of first appearance; looking names up in either direction gives the original back, an unknown name raises an exception, every cost and prize is attached to the renamed edge or vertex, and a cost of an edge that does not exist raises an exception.",
  "all edge lists and vertex names", "The map has to be right for every labelling.", ["include/pctsp/renaming.hh"], [("two-way map of old and new vertices", "include/pctsp/renaming.hh")],
  "return values of the C++ functions", "comparison of every answer with an independent definition", "Graphs up to 10 vertices with names up to 2e9." + HARN)
P("G05", "Statistics files hold what was recorded",
  "The summary written to a file is read back unchanged, field by field, over an existing file too, and a file that does not exist is reported as such; the node statistics and bounds files have one row per record with every value in its named column, and time stamps denote the recorded moment in UTC to the millisecond in any time zone. "
  "Where the directory does not exist nothing is written.",
  "all recorded values, time zones and files", "Values such as large counts, early milliseconds or other time zones are not sampled by a test.",
  ["src/stats.cpp", "include/pctsp/stats.hh", "src/event_handlers.cpp", "include/pctsp/filepath.hh", "include/pctsp/exception.hh"], [("summary file", "src/stats.cpp"), ("CSV files", "src/stats.cpp"), ("time stamps", "src/event_handlers.cpp")],
  "files written, values read back", "offline comparison of the files with the recorded values, under several time zones",
  "Bounds in CSV files are compared to six significant digits (what the stream writes)." + HARN, ("inputs", "configurations"))
P("G06", "Tailing off and heuristic measures follow their definitions",
  "A node is said to be tailing off exactly when as many LP gaps as the limit (two or more) have been seen and the gap improved by less than the threshold from the oldest to the newest of them. "
  "The unitary gain and loss, the number, average and smallest loss of feasible extensions are those of their definitions.",
  "all gap histories, thresholds and limits; all losses", "Window edges decide; tests use single values.", ["src/subtour_elimination.cpp", "src/heuristic.cpp"], [("rolling list of gaps", "src/subtour_elimination.cpp"), ("measures", "src/heuristic.cpp")],
  "return values of the C++ functions", "comparison of every answer with an independent definition", "Histories up to 12 gaps." + HARN, ("inputs", "histories"))

SUUR = ["pctsp/suurballe/suurballe.py"]
P("Y01", "Disjoint path costs are exact for every vertex",
  "For every vertex of an undirected graph with non-negative costs, the cost computed for it is the smallest total cost of two paths from the root to that vertex that share no other vertex; a vertex has a cost exactly when two such paths exist. "
  "This holds for graphs of any shape and depth and the input graph is not changed.",
  "all undirected graphs, costs (ties, zeros) and roots", "Minimality is over all pairs of paths; tests check handful of graphs.",
  SUUR, [("two shortest path searches on the split graph", "pctsp/suurballe/suurballe.py")], "returned cost map", "differential monitoring against minimum cost flow for every vertex",
  "Random and structured graphs, rings of thousands of vertices. Trusts networkx.")
P("Y02", "Extracted disjoint paths are real, disjoint and cost what is claimed",
  "For every vertex with a disjoint path cost, the pair of paths returned for it are two simple paths of the input graph from the root to that vertex that share only their ends, and their total cost is the cost reported. "
  "The labels in the paths are the caller's vertices.",
  "all undirected graphs, costs and roots", "Every vertex of every graph needs its own extraction.",
  SUUR, [("extraction of the pair of paths from the labelled tree", "pctsp/suurballe/suurballe.py")], "returned path pairs", "online oracle on returned paths",
  "Random and structured graphs. Trusts networkx.")
P("Y03", "Edge-disjoint path pairs in directed graphs are minimal",
  "For a directed graph with non-negative costs, the pair of edge-disjoint paths found from the source to each vertex has the smallest total cost, and the pair extracted uses no arc twice and has that cost. "
  "A vertex gets a pair exactly when two arc-disjoint paths exist.",
  "all directed graphs without antiparallel arcs, costs and sources", "Minimality is over all pairs; tests check handful of graphs.",
  SUUR, [("Suurballe and Tarjan's label propagation", "pctsp/suurballe/suurballe.py")], "returned tree weights and paths", "differential monitoring against minimum cost flow",
  "Random asymmetric digraphs. Trusts networkx.")
P("Y04", "Preprocessing removes exactly what can be on no tour",
  "Restricting to the root's component, removing leaves and removing one-connected parts leave exactly the vertices the definitions say (component of the root, two-core, blocks containing the root), and every simple cycle through the root survives. "
  "Attributes of what is left are kept and the input is not changed.",
  "all undirected graphs, sequences of steps, roots", "Exactness is over all graphs; tests check small fixtures.",
  ["pctsp/preprocessing/preprocessing.py"], [("component, leaf and one-connected filters", "pctsp/preprocessing/preprocessing.py")], "returned graphs", "oracle: independent definitions on random graphs, tours preserved",
  "Random and structured graphs, long paths. Trusts networkx.")
P("Y05", "The starting tour from disjoint paths is the best such tour",
  "Building a starting tour from pairs of disjoint paths returns the cheapest simple tour among the pairs that meets the quota, or, if none does, the one with the most prize; it is always a simple cycle through the root. "
  "If no pair gives a tour, nothing is returned, and a malformed pair of paths is refused with an error.",
  "all graphs, roots and quotas", "Selection is over all vertices.",
  ["pctsp/algorithms/heuristic.py", "pctsp/suurballe/suurballe.py"], [("selection over the paths map", "pctsp/algorithms/heuristic.py")], "returned tour", "online oracle over the whole map",
  "Random and structured graphs." + TRUST)
P("Y06", "A cycle through the root is found exactly when there is one",
  "The search for a small cycle through the root returns a simple cycle of the graph through the root if the root lies on any cycle, and otherwise returns nothing. "
  "The graph is not changed.",
  "all undirected graphs and roots", "Existence quantifies over all graphs.", ["pctsp/algorithms/heuristic.py"], [("breadth first search for a cycle", "pctsp/algorithms/heuristic.py")],
  "returned cycle", "online oracle (existence by biconnected components)", "Random and structured graphs." + TRUST)
P("Y07", "Random starting tours are valid and reproducible",
  "A random starting tour is a simple tour through the root with at least three vertices that meets the quota asked for whenever one was promised, and the same seed gives the same tour, in every process. "
  "Different seeds do give different tours when there are several, and reach more than two of them when there are many.",
  "all instances and seeds", "Statements over all seeds.", ["pctsp/algorithms/heuristic.py"], [("random tours", "pctsp/algorithms/heuristic.py")],
  "returned tours", "online oracle and repeated runs per seed", "Random instances." + TRUST)
P("Y08", "Tree orders, ancestor tests and reduced costs match their definitions",
  "On a shortest path tree the preorder and postorder numbers are those of a depth first traversal, the ancestor test is true exactly for ancestors, parents follow the tree, and reduced arc costs are non-negative with zero on tree arcs. "
  "These hold for trees of any depth.",
  "all directed graphs and sources", "Tests use one tree.", SUUR, [("tree traversal and reduced costs", "pctsp/suurballe/suurballe.py")],
  "returned trees and graph attributes", "oracle: definitions recomputed independently", "Random digraphs. Trusts networkx.")

LABF = ["pctsp/lab/lab.py", "pctsp/lab/run_algorithm.py"]
P("L01", "Running an algorithm from preprocessing to result gives a correct result",
  "Running a configured algorithm on a graph returns a result for that configuration whose edges form a tour of the caller's graph (or none), whose objective and prize are recomputed exactly from that graph, and which is optimal when the exact algorithm was asked for, whatever preprocessing and starting heuristic are chosen. "
  "A heuristic never returns a tour as feasible that misses the quota, and options that are not implemented are refused with an error.",
  "all instances, algorithms, parameters and preprocessing choices", "The whole pipeline needs the compiled solver, which the existing tests never build.",
  LABF + ["pctsp/preprocessing/preprocessing.py"], [("algorithm dispatch and result", "pctsp/lab/run_algorithm.py")], "returned graph and result object",
  "online oracle on pipeline results, enumeration of tours", "Random instances of up to 8 vertices." + TRUST, ("inputs", "configurations"))
P("L02", "Batches cover an experiment exactly once",
  "Splitting an experiment into batches of any size and running every batch runs every vial exactly once, and the job script for the cluster asks for exactly those batches and enough time. "
  "Running only missing results never reruns a finished vial.",
  "all numbers of vials, batch sizes and ways of running", "Off-by-one losses depend on the remainder of the division.",
  ["pctsp/lab/lab.py", "pctsp/apps/main_app.py"], [("batches of vials", "pctsp/lab/lab.py"), ("job array script", "pctsp/lab/lab.py")], "result directories, job script, executed script",
  "conservation monitor (exactly once) over result files, script executed in a scratch directory", "Experiments of up to a few dozen vials." + TRUST, ("inputs", "configurations"))
P("L03", "Failing vials and damaged files stay local",
  "If some vials of an experiment fail or some result files are damaged or missing, every other vial still gets a correct result, and the lists of missing and infeasible vials name exactly those that are. "
  "No failure stops the remaining vials of the experiment from being run or listed, except that a data set whose directory does not exist is reported at once.",
  "all subsets of failing vials and kinds of file damage", "Faults come at arbitrary places; tests inject none.",
  LABF, [("running an experiment", "pctsp/lab/lab.py"), ("missing and infeasible results", "pctsp/lab/lab.py")], "result files, returned lists of vials",
  "fault injection with an offline checker over result files", "Damages: deleted, emptied, truncated, zero-filled, non-text, non-JSON and other-schema files; failing vials of several kinds." + TRUST, ("inputs", "fault_sequences"))
P("L04", "Experiments and results survive being written and read",
  "An experiment or result written to disk and read back equals the original in every field, in the place the naming scheme says, and rewriting replaces it. "
  "Two vials never share a directory.",
  "all experiments and results", "Over all field values, including unset and extreme ones.",
  ["pctsp/vial/vial.py", "pctsp/vial/result.py", "pctsp/vial/experiment.py", "pctsp/lab/lab.py"], [("serialisation", "pctsp/vial"), ("paths", "pctsp/lab/lab.py")], "files and objects read back",
  "online round trip oracle on random objects", "Random values in every field." + TRUST)
P("L05", "Parameter grids and study experiments are complete cross products",
  "Expanding lists of parameters gives every combination exactly once, and every study experiment contains exactly one vial per combination of its documented parameters, each with the instance's real quota, root and a distinct identifier. "
  "Exactly the vials whose graphs qualify are included.",
  "all parameter lists and study settings", "A missing combination silently drops results from a study.",
  ["pctsp/compare/product_of_params.py", "pctsp/compare/params.py", "pctsp/compare/exact_experiment.py", "pctsp/compare/heuristic_experiment.py", "pctsp/compare/dryrun_experiment.py"], [("cross product of parameters", "pctsp/compare/product_of_params.py"), ("study parameters and quotas", "pctsp/compare")], "lists of vials",
  "online oracle: recomputed cross products", "Synthetic data sets stand in for the real ones (no network)." + TRUST, ("inputs", "configurations"))
P("L06", "The exported CSV says what the result files say",
  "Every row of an exported summary equals the vial, result and solver summary it comes from: gap, feasibility, objective, prize, instance facts and settings, with blanks exactly where there is nothing to report. "
  "Each result appears exactly once, and an incomplete or damaged solver summary of one vial does not disturb the others.",
  "all experiments and sets of results", "Errors here silently change published tables; nothing in the tests reads a CSV.",
  ["pctsp/apps/csv_app.py", "pctsp/lab/lab.py", "pctsp/vial/vial.py"], [("summary of an experiment", "pctsp/apps/csv_app.py")], "CSV file read back",
  "offline recomputation of every cell from the files", "Random experiments with missing, infeasible and damaged results." + TRUST, ("inputs", "fault_sequences"))
P("L07", "Tables aggregate exactly the rows they should",
  "Every cell of a summary table equals the aggregate (mean, sum of means, count of optimal or feasible solutions) recomputed from the CSV rows belonging to that cell, and every published column, index or value name is the name of what it stands for. "
  "Gaps of heuristics are measured against the exact lower bound of the same instance, and asking for all tables makes each table there is data for.",
  "all result tables", "A swapped column or a wrong group is invisible without recomputation.",
  ["pctsp/apps/tables_app.py"], [("group-by tables", "pctsp/apps/tables_app.py")], "data frames handed to the LaTeX writer",
  "offline recomputation cell by cell", "jinja2 is not installed, so the final LaTeX text is replaced by a recorder; the frames and styles given to it are checked." + TRUST)
P("L08", "Data set statistics match their definitions",
  "The reported features of an instance (vertices, edges, prize and cost sums, ratios, metric violations, counts for tours of disjoint paths and after preprocessing) equal the values recomputed from its graph by definition. "
  "The instance's own files are not changed.",
  "all graphs with prizes and costs", "Aggregates over all vertex triples and all disjoint paths.",
  ["pctsp/apps/dataset_app.py"], [("features of a graph", "pctsp/apps/dataset_app.py")], "features data frame / CSV",
  "online oracle by definition (enumeration, flows)", "Random graphs of the synthetic data sets." + TRUST)
P("L09", "Log messages are written exactly once and archives are complete",
  "A message logged at or above the chosen level appears exactly once in the logger's file and stream however often the logger is fetched, and messages below it never appear. "
  "Log file paths keep the whole name they are given, and packing and unpacking an archive gives back the same files.",
  "all sequences of fetching loggers and logging; all directory trees", "Duplicates depend on the history of calls.",
  ["pctsp/utils/utils.py", "pctsp/apps/utils_app.py"], [("logger set-up", "pctsp/utils/utils.py"), ("archives", "pctsp/apps/utils_app.py")], "log files, captured stream, unpacked tree",
  "exactly-once checker over logged messages", "Random histories of calls in one process." + TRUST, ("inputs", "histories"))
P("L10", "The command line does what its options say",
  "Each command that makes, runs or reruns experiments writes exactly the experiment its options (or the environment variables standing in for them) describe and the correct results for it; an experiment that a data set does not have is refused. "
  "Rerunning a stored vial runs that vial alone and gives the same answer as the first run; a vial that the experiment does not have is refused.",
  "all commands and option values", "No test runs the command line.",
  ["pctsp/apps/main_app.py", "pctsp/apps/options.py", "pctsp/__main__.py"], [("commands", "pctsp/apps/main_app.py")], "experiment and result files, exit status",
  "online oracle on files after real command runs", "Synthetic data sets in a scratch directory." + TRUST, ("inputs", "configurations"))
P("L11", "Drawings show exactly the graph and the tour",
  "The figure drawn for a graph, a set of edges or a tour shows exactly its edges as separate segments and exactly its vertices at their coordinates, with tour edges told apart from the rest. "
  "The figures comparing heuristics show, per cost function, sparsity and algorithm, exactly the gaps that the result files give.",
  "all graphs with coordinates and tours", "Drawings are never inspected by tests.",
  ["pctsp/plot/plot_edges.py", "pctsp/plot/plot_graph.py", "pctsp/plot/plot_tour.py", "pctsp/plot/plot_vertices.py", "pctsp/apps/plot_app.py"], [("traces of a figure", "pctsp/plot")], "figure objects decoded back into edges",
  "oracle decoding the figure data", "plotly figures are decoded as data, not rendered." + TRUST)
P("L12", "Every setting of a vial reaches the algorithm",
  "Running a configured vial is the same as running the named algorithm directly with the vial's quota, root and settings: the start tour, branching rule and depth, cost cover bounds, separation limits and time limit that reach the solver are the vial's, and a heuristic gives the tour of its start and improvement steps under the vial's depth, step and collapse settings. "
  "Settings that are left out have their documented defaults, and a start tour that misses the quota is not passed on.",
  "all vials, instances and sets of omitted options", "A setting that is dropped or mixed up on the way changes a whole study without any error.",
  ["pctsp/lab/run_algorithm.py", "pctsp/algorithms/algorithms.py", "pctsp/algorithms/path_extension_collapse.py", "pctsp/vial/model_params.py"], [("dispatch of a vial to its algorithm", "pctsp/lab/run_algorithm.py"), ("options of the solver", "pctsp/algorithms/algorithms.py")],
  "arguments crossing into the compiled library, model and branching rules recorded when the search starts, returned tours",
  "differential trace comparison: the vial's run against a direct run under the same settings", "Compares set-up (arguments, model, rules, start solution), not the order of the search, which follows memory addresses." + TRUST, ("inputs", "configurations"))
