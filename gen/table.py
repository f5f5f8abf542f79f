ALLCPP = ["src/", "macposts/_ext/"]

prop("C01", "Vehicles and passengers are never lost or duplicated",
     "From its release until its arrival, every vehicle and every passenger is in exactly one place (an origin or "
     "destination queue, a link's incoming, moving or finished queue, a bus, a bus stop or parking lot). Each step of every link, node, "
     "transit and demand model that takes an agent out of one place puts that same agent into exactly one other place or "
     "retires it once, and every agent created is placed in the network.",
     ["inputs", "histories"],
     "every network, demand, model type, branch and loop count of every loading step",
     "The tests check totals on two small networks; conservation on rarely taken branches (holding buses, park-and-ride, charging, full links) is not exercised.",
     ["src/dlink.cpp", "src/dnode.cpp", "src/od.cpp", "src/multiclass.cpp", "src/multimodal.cpp", "src/ev_traffic.cpp", "src/delivery_traffic.cpp", "src/factory.cpp"],
     [("queue-to-queue moves in links", "src/dlink.cpp, src/multiclass.cpp, src/multimodal.cpp evolve / clear_incoming_array / move_*"),
      ("node transfer", "src/dnode.cpp, src/multiclass.cpp move_vehicle / evolve"),
      ("release and arrival", "src/od.cpp release*, receive"),
      ("boarding, alighting, parking", "src/multimodal.cpp")],
     technique="interprocedural path-sensitive ownership (token balance) dataflow over the CFG with summaries and virtual dispatch",
     note="Every path between loop heads is followed with path-set states; an agent that is taken and not placed, placed twice, or placed without being taken is reported at the site. Paths that throw are excluded. Contents of local containers are not counted at scope end; loop trip counts are not bounded.")

prop("C02", "Every link entry and exit is recorded exactly once",
     "Whenever a vehicle or passenger moves from one link to another, exactly one unit (one agent divided by the flow scalar) is added to the "
     "entry curve of the link it enters and exactly one to the exit curve of the link it leaves, on the right link and vehicle class, "
     "time-stamped with the end of the current loading step. Where path-resolved curves are kept, they receive the same movement with the path and departure interval of the agent that moved.",
     ["inputs", "histories"],
     "every node, link and bus-stop model, every branch of a loading step, every number of in- and out-links and of moving agents",
     "Tests compare curves on two small networks with one link model; an entry lost or duplicated in another node model, class or branch shows only in particular networks.",
     ["src/dnode.cpp", "src/multiclass.cpp", "src/multimodal.cpp", "src/ev_traffic.cpp"],
     [("records in node models", "src/dnode.cpp, src/multiclass.cpp record_cumulative_curve, evolve, move_vehicle"),
      ("records at bus stops and walking links", "src/multimodal.cpp"),
      ("records at charging stations", "src/ev_traffic.cpp")],
     technique="path-sensitive matching of movement events with curve records over the CFG, counter back-tracing, canonical value paths for time, amount, link side and matrix indices",
     note="Assumes installed curves (null curves record nothing by design), that buses are not counted on the car/truck curves (by design), and that a batch is recorded only when its count is positive. The numerical content of the curve container itself is not checked.")

prop("C03", "Car and truck quantities are never mixed up",
     "Every count, queue, curve, travel time, cost, flow, parameter and query result that belongs to one vehicle class is computed from quantities of that class only, "
     "and a vehicle is counted in the class it belongs to. The only exceptions are the model equations in which the two classes "
     "interact on purpose (perceived density, truck free-flow time in car cells) and the point-queue link, which moves both classes at the car speed.",
     ["inputs", "histories"],
     "every class-specific write, argument, record, result and class test in the library and the bindings",
     "The multiclass tests check a few totals; a swapped class in one query, model parameter or rarely used branch gives plausible numbers.",
     ["src/multiclass.cpp", "src/multimodal.cpp", "macposts/_ext/mcdta.cpp", "macposts/_ext/mmdta.cpp"],
     [("class counters and queues", "src/multiclass.cpp, src/multimodal.cpp"),
      ("class-specific queries", "macposts/_ext/mcdta.cpp, macposts/_ext/mmdta.cpp")],
     technique="value-flow (taint) analysis of the vehicle class through reaching definitions, class-test facts (forward dataflow) and declared class of members, functions and parameters",
     note="Class membership of a declaration is taken from its name; locals are judged by what flows into them, never by name. Branches that decide a class-specific value without data flow from it are judged only at vehicle creation.")

prop("C04", "A simulation is reproducible from its seed",
     "Two runs in separate processes on the same input files and with the same seed "
     "produce the same results. No result depends on the clock, on unseeded or "
     "nondeterministic entropy, or on the memory addresses of objects, and setting the "
     "random state seeds every generator the simulation draws from.",
     ["inputs", "histories"],
     "every network, demand, configuration and seed; every order in which the allocator hands out addresses",
     "The reproducibility tests run two small single-destination networks twice in one process; address-dependent orders and generators on other paths (EV, delivery, multimodal) never show there.",
     ["src/", "macposts/_ext/utils.h", "macposts/utils.py"],
     [("seeding of the C and C++ generators", "macposts/_ext/utils.h set_random_state, src/ults.cpp"),
      ("ID-ordered demand containers", "src/od.h"),
      ("integer-keyed maps for links, nodes, OD pairs", "src/factory.h")],
     technique="effect lint: entropy sources, engine seeding, address-ordered traversal with order-sensitivity analysis of loop bodies",
     note="Every call, engine, sort comparator and traversal of a container ordered or hashed by address is classified; a traversal is accepted only if its body is shown order-insensitive (commutative updates). Nine address-ordered traversals of the unchanged tree are known findings. Floating-point reassociation across compilers is out of scope.")

prop("C05", "Simulations in one process are independent of each other",
     "Creating, running, querying or destroying one simulation never changes the results of another "
     "simulation in the same process: all simulation state belongs to an instance, and the only state "
     "shared between instances is the random generator that the user seeds explicitly.",
     ["histories"],
     "every interleaving of operations on any number of instances, of any of the model classes",
     "The tests hold one live simulation at a time, so leakage through static or module-level state never shows.",
     ["src/", "macposts/_ext/", "macposts/"],
     [("all state is in members of per-instance objects", "src/dta.h, macposts/_ext/*.cpp"),
      ("the only mutable static is the random engine", "src/ults.cpp, macposts/_ext/utils.h")],
     technique="whole-program inventory and write analysis of static-storage variables; Python AST scan for module/class-level mutable state",
     note="Sound for C++ static storage (all namespace-scope, class-static and function-static variables of every TU are enumerated) up to writes through pointers made outside the repository.")

prop("C06", "Queries and exports do not change the simulation",
     "Reading results (travel times, cumulative curves, assignment ratios, registered items, statistics, "
     "graph contents) or exporting them to files never changes what the simulation or any later query returns: "
     "a query alters no network, demand, routing, vehicle or recorded-flow state and consumes no random numbers. "
     "Only explicitly stateful operations (initialise, register, install, build, run, update, set, add, delete, generate, read) change it.",
     ["histories", "inputs"],
     "every sequence of queries, in any order and number, at any point of a simulation's life",
     "Tests query once after the run, in one order; a query that perturbs state only shows in later answers.",
     ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "macposts/_ext/mmdta.cpp", "macposts/_ext/macposts.cpp", "macposts/dta.py", "src/dta_gradient_utls.cpp", "src/multiclass.cpp", "src/multimodal.cpp", "src/dlink.cpp"],
     [("query bindings only read the record", "macposts/_ext/*.cpp get_*"),
      ("memo fields for the horizon of a curve", "src/dlink.h m_last_valid_time")],
     technique="interprocedural side-effect (mod) analysis with alias roots from every query binding, against a memo-field allow list",
     note="May-analysis: every write reachable from a query through any override is reported unless it is to an object created in the call. Listed memo fields (6) and in-place re-sorting of curves are trusted to be invisible. Two effects of one query are known findings.")

prop("C07", "Errors surface as exceptions and never end the process",
     "Whatever the input files, arguments or call order, a failure detected by the library reaches the caller as an "
     "exception derived from the standard exception type (a Python exception through the bindings). Library code never "
     "exits or aborts the process, lets no exception escape a destructor or a non-throwing function, and never "
     "swallows an error: code that handles an exception and carries on does so for one known failure only, never for whatever may go wrong.",
     ["inputs", "fault_sequences"],
     "every malformed input, unreadable file and invalid call, on every path of every model",
     "Tests use only valid inputs; error paths are never executed.",
     ["src/", "macposts/_ext/", "macposts/utils.py"],
     [("throw std::runtime_error on bad input", "src/io.cpp, src/factory.cpp, macposts/_ext/*.cpp"), ("output redirection", "macposts/utils.py silence")],
     technique="exception-flow analysis over the call graph: process-ending calls, escape through destructors/noexcept, thrown types, which throw sites a handler can absorb; the same for the Python sources",
     note="Covers explicit process-ending calls, repository throws and the throwing library calls it knows (at, stoi, ...); memory faults and out-of-memory are outside it.")

prop("C08", "Nothing is computed from a value that was never assigned",
     "When an object of the library (vehicle, passenger, link, cell, node, origin, destination, stop, route choice, path, table or record) has been created, every number, flag, kind and pointer attribute whose value the library ever takes has been given a value: by a constructor on every path through it, by an initialiser in the class, or by the function that creates the object; the few attributes that tie an object to the network (ends of a link, node, origin and destination, stop limits, ranges) are set where the network is built. "
     "While an object is being constructed no attribute of it is used before it has been assigned. "
     "No function reads a local number or flag on a path that has not given it a value.",
     ["inputs", "histories"],
     "every path through every constructor and function, whatever the memory held before",
     "A test run on fresh memory sees zeros; which value an unassigned attribute has depends on what was freed before, so a sampled run shows nothing and another run differs.",
     ["src", "macposts/_ext"],
     [("constructors", "every constructor of src/*.cpp and src/*.h"),
      ("creation", "factories, release functions, readers"),
      ("variables", "every function")],
     technique="definite-assignment dataflow over constructors (composed over base constructors and calls on the object under construction), creation sites and local variables",
     note="The attributes set when the network is wired are listed in checks/c08.py, where only the existence of the assignment is checked. Local pointers are reported only where no path assigns them; elements of arrays are not followed.")
prop("C09", "Nothing deleted is used again",
     "On every path of every function, an object that was deleted there, or by a function called there, is not read, called, kept in a container or attribute, returned or deleted again through the same variable, a copy of it, or the attribute or container that holds it; and no iterator is used after its element was erased or after the container moved its elements. "
     "When a function other than a destructor deletes what an attribute or an element of a container points to, that attribute is given another value, or the element is taken out, before the function (or each function that calls it) returns. "
     "What a destructor deletes is not deleted again by the destructor of a base class, arrays and only arrays are released as arrays, and objects whose destructor deletes what their attributes point to are not copied.",
     ["inputs", "histories"],
     "every path through every function of the library and the Python extension, finished agents included",
     "A read of freed memory usually finds the old bytes, so tests pass; whether it does depends on what the allocator handed out in between.",
     ["src", "macposts/_ext"],
     [("finished agents", "remove_finished_veh, remove_finished_passenger, remove_finished, destinations"),
      ("replacement", "install_cumulative_curve*, set_path_table, initialize, init_routing"),
      ("path searches", "candidate paths that are dropped"),
      ("teardown", "every destructor")],
     technique="may-freed dataflow over access paths with aliases, containers and iterators, function summaries with conditions, and destructor chains",
     note="Objects reached from two owners that are not related in the function that deletes (path tables shared between routing objects, the tables handed to the Python classes) are not followed; leaks are not claimed.")
prop("C10", "Queries return the quantity they are named for",
     "A query, curve or record named for entering vehicles is computed from entry curves only and one named for leaving vehicles from exit curves only; "
     "likewise for boarding and alighting passengers and for the first and second stop of a bus link. A query or registration named for a travel mode (driving, bus, walking, bus transit, park-and-ride) "
     "uses the registered items of that mode, travel times are never replaced by generalised costs, start and end intervals, early and late penalties and finished, enroute and released counts are never exchanged, and each Python method runs the operation of its own name.",
     ["inputs", "histories"],
     "every query, record, curve and registry of the three simulation classes",
     "Most queries have no test; a swapped curve or registry returns plausible numbers.",
     ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "macposts/_ext/mmdta.cpp", "src/dta_gradient_utls.cpp", "src/multiclass.cpp", "src/multimodal.cpp"],
     [("curve queries", "macposts/_ext/*.cpp get_*_in_cc, get_*_out_cc, get_*_inflow"),
      ("binding tables", "macposts/_ext/*.cpp init"),
      ("mode registries", "macposts/_ext/mmdta.cpp m_link_vec_*, m_path_vec_*")],
     technique="value-flow analysis of the quantity a value stands for (side, event, stop end, time/cost, mode), name-to-target agreement of the binding table",
     note="The quantity of a declaration is taken from its name; locals are judged by what flows into them. Bus curves kept at stops are reversed by design (a bus that leaves the stop enters the link) and are judged by their own rule.")

prop("C11", "Query results are complete and laid out as requested",
     "Every element of a (dense) array returned by a query is assigned on every path before it is returned and nothing is written outside it. Row i belongs to the i-th registered link or path and "
     "column t to the t-th requested interval.",
     ["inputs"],
     "every number of registered items and requested intervals, every branch of every query",
     "Tests look at one or two shapes; an element left unassigned holds whatever memory held before and looks right most of the time.",
     ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "macposts/_ext/mmdta.cpp", "macposts/_ext/tdsp.cpp"],
     [("filling of result buffers", "macposts/_ext/*.cpp get_*")],
     technique="must-write interval analysis with polynomial index regions and loop summaries, bounds by polynomial entailment from dominating checks",
     note="Arrays whose size or position depends on the contents of unordered containers or search results (5 of 143) are not understood and not judged. Container sizes are assumed not to change while a result is filled.")

prop("C12", "Array arguments are validated before they are read",
     "Whatever arrays a caller passes to a query or registration, the number of dimensions and the lengths are checked before any element is read: "
     "no element outside an argument array is ever read, and inputs that do not fit (wrong dimension, lengths that differ, empty sequences) are rejected with an error. "
     "Elements are read with the element type of the array and at the positions the caller gave, also for strided views.",
     ["inputs"],
     "every shape and length of every array argument",
     "Tests pass well-formed arrays only; a missing check reads past the buffer and returns plausible numbers.",
     ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "macposts/_ext/mmdta.cpp", "macposts/_ext/tdsp.cpp"],
     [("argument checks", "macposts/_ext/*.cpp request() / ndim / shape checks")],
     technique="must-fact dataflow (dominating checks, callee throw-postconditions) and polynomial entailment of index < extent at every raw read; type check of the array flags",
     note="Reads through pybind11's checked accessors are not counted. That a strided int32/float64 view is read with the wrong stride is a known finding for both element types.")

prop("C13", "Queries reject intervals outside the simulated period",
     "A query for a list of intervals returns values only if every start interval is smaller than the number of intervals loaded so far, and, where ends are given, every end is larger than its start and not larger than "
     "the number of intervals loaded; it raises an error otherwise, and only then. Travel time tables and other series with one entry per interval are never read at a negative interval. (The fundamental-diagram travel time query is not limited.)",
     ["inputs", "histories"],
     "every query with interval arguments, every state of loading",
     "Tests query inside the simulated period after a full run only.",
     ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "macposts/_ext/mmdta.cpp", "src/dta_gradient_utls.cpp", "src/multimodal.cpp"],
     [("interval checks", "macposts/_ext/*.cpp start_intervals / end_intervals"), ("path travel time tables", "src/dta_gradient_utls.cpp get_path_travel_time")],
     technique="must-fact dataflow (dominating checks incl. checks over all elements in an earlier loop and in helpers) and linear entailment at every call that receives an interval",
     note="The role of an argument (start or end) is taken from its name or that of the library parameter it reaches.")

prop("C14", "Query intervals and units are handled uniformly",
     "A link travel time query for interval t asks for vehicles that enter at curve time t + 1 (start + 1 and end + 1 for averages over a period), while flow and assignment-ratio queries use exactly the requested start and end and path queries depart at the requested start and ask each link for vehicles that enter one step after the arrival at it. "
     "Travel times returned by queries are in seconds, that is, a travel time in intervals is multiplied by the unit time exactly once, and the unit time and number of loaded intervals used are those of the simulation queried.",
     ["inputs"],
     "every query with interval arguments and every internal use of the link travel time functions",
     "An offset by one interval or a missing unit conversion in one of some forty similar queries gives plausible numbers.",
     ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "macposts/_ext/mmdta.cpp", "src/due.cpp", "src/dso.cpp", "src/multimodal.cpp"],
     [("link travel time queries", "macposts/_ext/*.cpp get_*_link_tt*"), ("link cost tables", "src/due.cpp build_link_cost_map, src/multimodal.cpp")],
     technique="symbolic offset extraction (polynomial normal form of time arguments) and dimensional (unit) analysis of returned values through reaching definitions",
     note="Only the unit time and travel times in intervals are tracked as dimensions; values read back from travel time tables are not.")

prop("C15", "Curves that were not installed are never used",
     "Whatever the order of calls, a query, simulation step or export that needs a cumulative curve which was not installed raises an error or skips the curve; "
     "it never follows a missing curve. A check of one curve stands for the others only where the curves are always installed together.",
     ["histories", "inputs"],
     "every order of installing curves, running and querying, for every link, bus stop and node model",
     "The tests always install all curves first; a missing check shows as a crash only in the uninstalled order of calls.",
     ["src/dlink.cpp", "src/dta_gradient_utls.cpp", "src/multiclass.cpp", "src/multimodal.cpp", "macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "macposts/_ext/mmdta.cpp"],
     [("curve checks in queries", "macposts/_ext/*.cpp, src/dta_gradient_utls.cpp"), ("records only into installed curves", "src/dnode.cpp, src/multiclass.cpp")],
     technique="interprocedural nullness (typestate) analysis: optional pointer members, installed-together groups, must-check facts, requirements propagated to every caller",
     note="Curves held in containers are not judged. Calls on a simulation that was never initialised are outside it.")

prop("C16", "Unknown, repeated and mismatched IDs are rejected",
     "A link, node, path, stop or OD pair ID given to a query or registration that does not exist raises an error; an ID is never used to look something up without having been found. "
     "Registering the same link twice, a link or path of another type than the registry's, or (per travel mode) a path twice raises an error. "
     "Adding a node or link whose ID a graph already has, a link to an unknown node or a self-loop raises an error and leaves the graph as it was.",
     ["inputs"],
     "every ID passed to every query and registration",
     "Tests pass existing, distinct IDs only; a missing check dereferences past the end of a table.",
     ["macposts/_ext/dta.cpp", "macposts/_ext/mcdta.cpp", "macposts/_ext/mmdta.cpp", "macposts/_ext/tdsp.cpp", "src/factory.cpp", "src/multimodal.cpp", "src/graph.h"],
     [("factory look-ups", "src/factory.cpp get_node, get_link, get_origin, get_destination; src/multimodal.cpp get_busstop, get_parking_lot, get_transit_link"),
      ("registrations", "macposts/_ext/*.cpp register_links*, register_paths*"), ("graph", "src/graph.h add_node, add_link, get_node, get_link")],
     technique="must-check dataflow on look-up keys with interprocedural requirement propagation from every map look-up to the bindings",
     note="A check of the ID in any container counts, so an ID known to one table but missing in another is not found out. IDs read from files are not judged.")

prop("C17", "Demand is released in full, OD pair by OD pair",
     "In every interval with demand, an origin releases for each entry of each of its demand tables exactly as many vehicles (or passengers) as the entry's demand in that interval times the flow scalar, rounded at random to one of the two nearest whole numbers (buses: rounded down); "
     "each carries the entry's destination, its origin, the interval of release and its class, and is adaptive or fixed-route according to the ratio that applies to that OD pair and class alone. "
     "The tables hold what the demand files say: every period of every OD pair in its own columns, in amounts that add up to the number read (where demand is split over the minutes of a period, less than one vehicle may be dropped), with nothing left over from another OD pair.",
     ["inputs", "histories"],
     "every demand table, flow scalar, interval, class and vehicle type",
     "The sample networks have few OD pairs and no per-pair ratios; an amount lost, doubled or sent elsewhere for one pair leaves totals plausible.",
     ["src/od.cpp", "src/multiclass.cpp", "src/multimodal.cpp", "src/delivery_traffic.cpp", "src/ev_traffic.cpp", "src/io.cpp", "src/dta.cpp"],
     [("release functions", "src/od.cpp, src/multiclass.cpp, src/multimodal.cpp, src/delivery_traffic.cpp, src/ev_traffic.cpp release_one_interval*"),
      ("demand tables", "add_dest_demand*, add_multi_OD_seq_demand"), ("reading demand", "src/io.cpp build_demand, src/multiclass.cpp build_demand_multiclass, src/multimodal.cpp build_*_demand*")],
     technique="symbolic loop-count and attribute extraction for object creations, lifted through helpers; loop-carried dependence and must-pass-through analysis; polynomial check of the amounts read",
     note="Loops, counts and keys of a form the analysis does not understand are listed in the evidence and not judged. The rounding function itself is not analysed. With split demand, periods too small for one vehicle are dropped by design.")

prop("C18", "Incomplete and malformed input files are rejected",
     "An input file that ends before the configured number of records has been read raises an error, as does a missing node, link, origin-destination or (single- and multiclass) demand file or a missing path table. "
     "A field of an input line is used only if the line has that many fields; lines with too few fields, unknown node and link types and paths with consecutive nodes that no link connects raise an error. "
     "Every other line of these files that is not blank or a comment is added to the model: none is skipped, and nothing found for one line is used for another.",
     ["inputs"],
     "every content of the input files, truncated and malformed ones included",
     "Tests load complete, well-formed models only; a truncated file used to repeat its last record or loop for ever.",
     ["src/io.cpp", "src/io.h", "src/multiclass.cpp", "src/multimodal.cpp", "src/delivery_traffic.cpp", "src/ev_traffic.cpp"],
     [("line reader", "src/io.h next_line"), ("network readers", "src/io.cpp build_node_factory, build_link_factory, build_od_factory, hook_up_od_node, build_demand; *_multiclass, *_multimodal, *_delivery, *_ev"),
      ("path tables", "src/io.cpp load_path_table; src/multimodal.cpp load_bus_path_table, load_pnr_path_table, load_bustransit_path_table")],
     technique="path analysis of every reading loop (end-of-file edge, rejecting branch, record added), linear entailment of field counts, reaching definitions of search results",
     note="Configured counts are assumed not to be negative. Text that does not start with a number raises in the standard library's conversions; configuration values, which are converted with atof, are not judged.")

prop("C19", "Shortest-path searches satisfy Bellman's conditions; paths are connected",
     "For every network, destination and cost table, a shortest-path search first resets all entries of the tree and distances it fills, then changes a node's entry only to a link that leaves the node, together with its distance, which becomes the cost of that link plus the cost of the turn (if any) plus the distance at the link's end (in time-dependent trees at the time of arrival there), and only where that is smaller than before. "
     "The search ends only when the links that enter any node whose distance changed have all been examined again; time-dependent trees examine every link in every interval, from the last to the first. "
     "A path read from a tree starts at the node (and interval) asked for, follows the recorded links, ends at the destination, lists each node and link once per step and reports the travel times of its links (and turns) added up as met on the way; where an entry is missing, no path is reported.",
     ["inputs"],
     "every graph, cost table, destination, departure time and reuse of the output tables",
     "Tests compare a few routes on one network; a search that stops early, examines wrong links or keeps old entries still gives right answers on most networks.",
     ["src/shortest_path.cpp", "src/shortest_path.h", "src/path.cpp"],
     [("searches", "src/shortest_path.cpp all_to_one_Dijkstra, all_to_one_FIFO, all_to_one_LIFO"), ("time-dependent trees", "src/shortest_path.cpp MNM_TDSP_Tree::update_tree, get_tdsp, round_time"),
      ("path extraction", "src/path.cpp extract_path")],
     technique="value terms by reaching definitions over helper-expanded control-flow graphs; edge-dominance and must-pass-through obligations for relaxation, queueing and path steps",
     note="Assumes non-negative costs for termination. With turn costs the conditions hold for the turn into the link recorded at the time of the examination. Callers that assert a path exists are not judged.")

prop("C20", "Every loading step updates every element once; steps run in sequence",
     "In every loading step each node, each link (first admitting arrivals, then moving) and each destination is updated exactly once and with that step's number, whatever its state, in the order time-dependent link attributes, release, routing, nodes, links, destinations, records; in multimodal loading so are passengers leaving origins and entering destinations, bus stops, walking links, parking lots and, without explicit buses, virtual bus stops and bus links. "
     "Steps are numbered 0, 1, 2, ... without gaps; every origin releases in exactly the steps that are multiples of the assignment frequency, and the assignment interval starts at the configured one and grows by one every assignment-frequency steps. "
     "A loading ends exactly when all assignment intervals have passed and either the configured number of steps is reached or, where none is configured, no released vehicle is still under way; the number of steps made is what it reports.",
     ["inputs", "histories"],
     "every network, demand, configuration and state of the elements in any step",
     "Tests run small networks where an element passed over for one step, a loading cut short or an interval counted twice rarely shows.",
     ["src/dta.cpp", "src/ev_traffic.cpp", "src/multiclass.cpp", "src/multimodal.cpp"],
     [("a step", "load_once in src/dta.cpp, src/ev_traffic.cpp, src/multimodal.cpp"),
      ("a loading", "src/dta.cpp MNM_Dta::loading; src/multiclass.cpp loading_vehicle_tracking; src/multimodal.cpp MNM_Dta_Multimodal::loading, MNM_MM_Due run"),
      ("the end", "finished_loading, has_running_vehicle")],
     technique="must-pass-through and at-most-once obligations over helper-expanded control-flow graphs of steps and loadings; truth table of the end condition",
     note="Routing types a step does not know release nothing (it warns or throws); with a known one every origin releases. What an update does is C01-C03, C17.")

prop("C21", "Input columns and settings become the attributes they name, converted once",
     "Every column of a row of the link, node, origin/destination, toll, time-dependent attribute, bus stop, parking lot, walking link and bus link files, and every setting that goes with it, becomes the attribute it is documented to be - the right vehicle class, the right link or node, with miles, hours and seconds converted exactly once - in the object made from the row; a type text makes an object of that type. "
     "The parameters an object derives from them (jam, critical and cell densities, capacities, wave speeds, numbers and lengths of cells, stamps) are the documented functions of these attributes and of no stale or other-class value, bounded only by the documented maxima and by the capacity for one vehicle, and every one of them is set before it is used. "
     "The time-dependent attributes of a step are applied to the link they are given for and update all of its derived parameters in the same way (cell-transmission and link-queue links with two classes).",
     ["inputs"],
     "every input file the readers accept and every combination of attribute values",
     "Tests use few networks with equal or extreme attributes, in which a column read for another, a missed conversion or a stale parameter changes no asserted number.",
     ["src/io.cpp", "src/multiclass.cpp", "src/multimodal.cpp", "src/dlink.cpp", "src/dnode.cpp", "src/od.cpp", "src/dta.cpp"],
     [("readers", "src/io.cpp build_*; src/multiclass.cpp MNM_IO_Multiclass::build_*; src/multimodal.cpp MNM_IO_Multimodal::build_*"),
      ("objects", "constructors of links, cells, nodes, origins, destinations, stops, parking lots, transit links"),
      ("changes over time", "MNM_Link_Factory_Multiclass::update_link_attribute, modify_property")],
     technique="symbolic dataflow of file columns and settings through readers, factories and constructors, decided by exact identity testing of the resulting rational functions; feasibility under type texts",
     note="Single-class time-dependent attributes are read but not applied by the code, and point-queue links with two classes keep their capacities when attributes change: neither is claimed. Demand files are C17.")

prop("C22", "Queues of vehicles and passengers are first in, first out",
     "Every queue of vehicles or passengers (at origins and destinations, the incoming, cell, moving, buffer and finished queues of links, at bus stops, parking lots and charging stations) keeps the order of arrival: newcomers join at its end, and those who leave are taken from its front or found on a pass that starts at the front and looks at everyone in turn, passing over only those who may not move. "
     "An agent given back by the next queue is the last one that queue got and goes in front again. "
     "No queue is sorted, shuffled, reversed or cycled, except that newly released agents at an origin and passengers on board a bus may be put in any order; the order in which a node serves its incoming links is random.",
     ["histories", "inputs"],
     "every queue operation in every step of every loading",
     "Tests look at totals per link and interval, which do not change when agents overtake each other; single agents' travel times are not asserted.",
     ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp", "src/multimodal.cpp", "src/delivery_traffic.cpp", "src/ev_traffic.cpp", "src/od.cpp"],
     [("queues of links", "src/dlink.cpp, src/multiclass.cpp move_veh_queue, move_last_cell, clear_incoming_array, evolve"),
      ("nodes", "move_vehicle, evolve of origin, destination and in-out nodes"),
      ("passengers", "src/multimodal.cpp bus stops, walking and bus links, parking lots, board_and_alight")],
     technique="position tracking of agents and iterators (front, end, later) through queue operations, helpers and passes; skip analysis after removals",
     note="Order between different queues (classes of one cell, approaches of a node) is drawn at random by the models and not claimed; how long an agent waits is not claimed.")

prop("C23", "Vehicles and passengers follow their routes link by link",
     "A vehicle, bus or passenger with a fixed route is sent to the link that comes first in what is left of its own route, and that link and no other is dropped from it at the same time; this happens when it gets its route and afterwards only when it has entered the link it was sent to before. "
     "The route it gets is the complete list of the links of one path in their order, taken from the paths of its own origin and destination, and that path is the one recorded with it; an adaptive traveller is sent to the link that the current tree of its own destination has for the node it is at, or where the tree has none to any link that leaves this node, and the tree of a destination is filled by a search to that destination. "
     "A traveller is sent to no further link only at the node of its own destination (park and ride: its parking lot), and nobody is moved to a link other than the one it was sent to.",
     ["histories", "inputs", "states"],
     "every routing update and every move of every agent in every loading",
     "In the tests' networks few pairs have more than one path and no agent's trajectory is asserted; a dropped, repeated or foreign link shows only when an agent waits at its origin or at the end of a link at the right moment.",
     ["src/routing.cpp", "src/multimodal.cpp", "src/ev_traffic.cpp", "src/so_routing.cpp", "src/dnode.cpp", "src/multiclass.cpp"],
     [("fixed routes", "src/routing.cpp MNM_Routing_Fixed, MNM_Routing_Biclass_Fixed; src/multimodal.cpp MNM_Routing_Bus, MNM_Routing_PnR_Fixed, MNM_Routing_PassengerBusTransit_Fixed: update_routing, register_veh, register_passenger"),
      ("adaptive routes", "MNM_Routing_Adaptive, MNM_Routing_Multimodal_Adaptive, MNM_Routing_Adaptive_With_POIs: update_routing"),
      ("moves", "every set_current_link: nodes, bus stops, parking lots, charging stations, buses, passengers' origins and destinations")],
     technique="symbolic values of routes, agents and links with helpers expanded, branch facts on every path, and a count of links sent to against links dropped over all paths of a pass",
     note="With random routing any link that leaves the node will do. Which path of the set is drawn, and with what probability, is not claimed; the tree an electric vehicle follows on its way to a charging station is not tracked. Predetermined routing gives routes to whole queues at once and no demand is released for it: only its links and moves are claimed.")

# ------------------------------------------------- not decided by static analysis
na("N01", "No link discharges or holds more than its capacity",
   "In every interval a link sends and receives no more vehicles than its flow capacity allows and never holds more than its holding capacity, up to the random rounding of one vehicle.",
   ["inputs", "histories"], "every network, demand and loading history",
   "Depends on the accumulated history of fractional flows.",
   ["src/dlink.cpp", "src/multiclass.cpp", "src/dnode.cpp"],
   [("supply and demand", "src/dlink.cpp get_link_supply, evolve; src/multiclass.cpp")],
   "The bound quantifies over real-valued flows carried from step to step (cell volumes, exited fractions, random rounding); no invariant over these histories is expressible as a flow, type or effect rule on the source.")
na("N02", "Travel times are never below free-flow travel times",
   "The travel time reported for a link and departure is at least its free-flow travel time and later departures do not arrive before earlier ones on the same path.",
   ["inputs", "histories"], "every loading history",
   "A numerical relation between two cumulative curves at all times.",
   ["src/dta_gradient_utls.cpp", "src/cumulative_curve.cpp"],
   [("travel times", "src/dta_gradient_utls.cpp get_travel_time*")],
   "It is a relation between the values of two curves produced by the whole simulation; bounding it needs the arithmetic of every link model over all histories.")
na("N03", "Assignment ratios and gradients equal what the loading produced",
   "The rows of the assignment matrix weighted by path flows reproduce the simulated link counts, and link-to-path gradients equal the derivative of the path travel times.",
   ["inputs", "histories"], "every loading history",
   "Numerical identity over simulated data.",
   ["src/dta_gradient_utls.cpp", "src/multiclass.cpp", "src/multimodal.cpp"],
   [("assignment ratios", "add_dar_records*"), ("gradients", "add_ltg_records*")],
   "An identity between floating-point aggregates of recorded data; static rules decide which curve, path and interval enter (C02, C10, C14) but not the value.")
na("N04", "Equilibrium iterations reduce the gap",
   "Method-of-successive-averages and gradient-projection assignments keep path flows non-negative, conserve OD demand and reduce the equilibrium gap.",
   ["histories"], "every network and iteration history",
   "A convergence statement.",
   ["src/due.cpp", "src/multimodal.cpp"],
   [("assignment loops", "src/due.cpp MNM_Due_Msa; src/multimodal.cpp MNM_MM_Due")],
   "Convergence of a heuristic on simulated costs is not a property of the program text.")
na("N06", "Conversions between simulated and real vehicles cancel",
   "Every count reported to the user is in real vehicles (simulated vehicles divided by the flow scalar exactly once) and every demand is multiplied by it exactly once.",
   ["inputs"], "every flow scalar",
   "Tests use one scalar.",
   ["src/dlink.cpp", "src/dnode.cpp", "src/multiclass.cpp", "src/multimodal.cpp"],
   [("flow scalar", "m_flow_scalar in links, nodes, origins")],
   "The parts a static rule decides are in C02 (records are divided once) and C17 (releases are multiplied once); the link models mix both units in intermediate state (cell volumes, exited fractions), where the declarations do not say which unit a quantity has.")
na("N07", "Memory is released, by one owner",
   "Everything a simulation allocates is freed when the Python object goes away, and an object that several parts share is freed by one of them.",
   ["histories"], "every construction, run and teardown order",
   "Leaks and deletions by two owners depend on whole-program ownership.",
   ["src/dta.cpp", "src/multiclass.cpp", "src/multimodal.cpp", "src/factory.cpp"],
   [("owners", "destructors of MNM_Dta, factories, path tables")],
   "The code shares raw pointers between factories, path tables, link cost tables and bindings without an ownership convention (path tables are deleted shallowly on purpose when shared); an ownership analysis would need one that the source does not state, and reports the unchanged tree in many places. Uses after a deletion in the same function or its callers are decided in C09.")
