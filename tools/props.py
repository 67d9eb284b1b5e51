NOT_APPLICABLE = []

prop("P01", "Products are conserved: each is in one place until it leaves by its sink",
     """Every product that a source creates (at the scheduled time, with the source's product type and a new ID) is at every
     moment in exactly one place - waiting in one queue or store, being processed by one resource, or carried by one vehicle -
     and is never lost or duplicated. It leaves the system once, through a sink of its own product type, and nothing happens to it
     before its creation or after it has left.""",
     ["configurations", "histories", "schedules"],
     """every valid system of sources, queues, machines, vehicles, stores and sinks, every random outcome and every moment of a run""",
     TESTS + " A product that is lost, duplicated or delivered to a foreign sink only shows as a slightly different throughput.",
     [SIM + "control.py", SIM + "product.py", SIM + "source.py", SIM + "sink.py", SIM + "store.py"],
     [("get/put between queues, resources and vehicles", SIM + "control.py"), ("filter store with reservations", SIM + "store.py"),
      ("process_product", SIM + "product.py"), ("create_product", SIM + "source.py"), ("register_finished_product", SIM + "sink.py")],
     LOG, note=NOTE, technique=TECH)

prop("P02", "Finished products had exactly their planned processes, in planned order",
     """A finished product has executed exactly the processes of its plan: a sequential plan in the listed order, a precedence graph
     with every process once and none before all of its predecessors (processes only named as successors included). Its
     steps never overlap in time, repeated steps only follow a failed step, and it does not finish while or before a step is due.""",
     ["configurations", "inputs", "schedules"],
     """every sequential plan (with repetitions) and every acyclic precedence graph given as adjacency matrix or edge list, on any
     set of resources able to do the processes; every order in which enabled processes can be picked""",
     TESTS + " Precedence graphs allow many orders; a test sees one of them per seed.",
     [SIM + "process_models.py", SIM + "product.py", SIM + "process.py", SIM + "process_matcher.py"],
     [("list, precedence graph and transition", SIM + "process_models.py"), ("process_product", SIM + "product.py")],
     LOG, note=NOTE, technique=TECH)

prop("P03", "Failed processes are reworked, and only failed ones",
     """A product gets a rework process exactly when a process that this rework covers failed: blocking rework is done before any
     other planned step of the product, non-blocking rework after all its planned steps. A product leaves the system
     only when every failure was reworked and the failed process was repeated as required, and a product without failures is
     never reworked. Each execution of a process fails with the failure rate of that process.""",
     ["configurations", "fault_sequences", "schedules"],
     """every sequence of success and failure outcomes of the failing processes of small plans, blocking and non-blocking rework""",
     TESTS + " Failure outcomes are drawn at random: a test sees one sequence of them.",
     [SIM + "product.py", SIM + "control.py", SIM + "router.py", SIM + "process.py"],
     [("add_needed_rework, set_next_possible_processes", SIM + "product.py"), ("failure draw after a production state", SIM + "control.py"),
      ("route_rework", SIM + "router.py")], LOG, note=NOTE, technique=TECH)

prop("P04", "Resources never exceed their capacity or the capacity of a process",
     """At no moment does a resource work on more products than its capacity, nor on more products with one process than the
     capacity it has for this process. This also holds around breakdowns, setups, batches and simultaneous requests,
     and a vehicle never carries more items than its capacity.""",
     ["configurations", "schedules", "histories"],
     """every combination of resource and process capacities, arrival patterns and random outcomes within the bounds""",
     TESTS + " Over-commitment needs simultaneous requests, which the example systems rarely produce and never look for.",
     [SIM + "control.py", SIM + "resources.py", SIM + "state.py"],
     [("resource.full, wait_for_free_process, get_free_process", SIM + "resources.py"), ("control_loop, start_process", SIM + "control.py")],
     LOG, note=NOTE, technique=TECH)

prop("P05", "Finite buffers never overflow, and vehicles only head for reserved space",
     """The number of products in a queue never exceeds its capacity (capacity 0 means unlimited). A transport to a buffer only
     starts when a place there is reserved, so a vehicle that arrives with a product can always put it down without waiting, and
     reserved places are used or given back so that they stay available.""",
     ["configurations", "schedules", "histories"],
     """every line of machines with finite input and output buffers, every moment of a run, every random outcome within the bounds""",
     TESTS + " Full buffers are an exceptional state in the tests, and no test looks at reservations.",
     [SIM + "store.py", SIM + "router.py", SIM + "request.py", SIM + "control.py"],
     [("reserve, unreseve, put, full", SIM + "store.py"), ("route_product_to_production_resource", SIM + "router.py")],
     LOG, note=NOTE, technique=TECH)

prop("P06", "Breakdowns stop work, lose none of it, and last exactly the repair time",
     """While a resource (or one process of it) is broken down no affected process works: it is interrupted at the failure, resumes at
     the end of the repair unless another breakdown still affects it, and works in total exactly its process time. Breakdowns
     occur after the up times and last for the repair times that their time models give, and they
     only affect the resource or process they belong to.""",
     ["fault_sequences", "configurations", "schedules"],
     """every time and length of breakdowns from the enumerated menus relative to the work in progress, several breakdowns per
     resource, resource and process breakdowns together, on machines and vehicles""",
     TESTS + " Each placement of a failure relative to the running work is another path; the tests see those of one seed.",
     [SIM + "state.py", SIM + "resources.py", SIM + "control.py"],
     [("interrupt_process and resume of production, transport and setup states", SIM + "state.py"),
      ("BreakDownState, ProcessBreakDownState", SIM + "state.py"), ("interrupt_states, activate", SIM + "resources.py")],
     LOG, note=NOTE, technique=TECH)

prop("P07", "Machines are set up for each process change, and only then",
     """A machine with setup times executes a process only when its last setup (or first process) was for it: whenever the process to
     execute differs from the current one, exactly one setup from the current to the new process is executed first, for
     the time its time model gives. No setup takes place without a change, no production runs during
     a setup, and setups of a machine never overlap.""",
     ["configurations", "schedules", "histories"],
     """every order of processes on machines with a complete set of setups between their processes, capacities above one and
     breakdowns during setups included""",
     TESTS + " The tests count setup time of one order of processes.",
     [SIM + "resources.py", SIM + "control.py", SIM + "state.py"],
     [("setup", SIM + "resources.py"), ("start_process waits for setup", SIM + "control.py"), ("SetupState", SIM + "state.py")],
     LOG, note=NOTE, technique=TECH)

prop("P08", "Requests are served in the order of the configured control policy",
     """Whenever a resource becomes able to start work, the request it serves is the one its policy ranks first among those waiting:
     the oldest (first in, first out), the newest (last in, first out), the one with the shortest process or transport time (ties: the oldest), or
     for the nearest-origin policies the one whose pick-up point is nearest to the vehicle with the target queue length as tie
     breaker. No policy loses, duplicates or alters waiting requests.""",
     ["schedules", "inputs", "histories"],
     """every set of waiting requests that arises in the enumerated systems, and every permutation of small request lists handed to a policy""",
     TESTS + " A queue with several waiting requests of different rank has to be observed at the decision; the tests only see KPIs.",
     [SIM + "control.py"],
     [("FIFO, LIFO, SPT and nearest-origin policies", SIM + "control.py"), ("control_loop", SIM + "control.py")],
     LOG, note=NOTE, technique=TECH)

prop("P09", "Products go to able resources only, chosen by the routing heuristic",
     """A product is only sent to resources that offer the process it needs (the same process, a process with the required capability, or
     a resource offering a compound process with it), and executed with such a process; transports are only done by vehicles offering the product's transport process.
     Among several able resources with free space the heuristic decides: the first defined one for first-in-first-out routing, one with
     the fewest waiting requests for shortest queue, any of them for random routing.""",
     ["configurations", "schedules", "inputs"],
     """every assignment of plain, capability and compound processes to small sets of resources, every routing heuristic and random choice""",
     TESTS + " Matching is a relation between all processes and resources, tests cover a few pairs.",
     [SIM + "router.py", SIM + "process_matcher.py", SIM + "process.py", SIM + "resources.py"],
     [("match tables", SIM + "process_matcher.py"), ("matches_request", SIM + "process.py"), ("routing heuristics", SIM + "router.py")],
     LOG, note=NOTE, technique=TECH)

prop("P10", "Vehicles move continuously, on links, along shortest routes, in due time",
     """Each leg of a vehicle starts where its previous leg ended; it drives empty to the pick-up place of the item it will carry (unless it is there) and
     then loaded to the item's target, and every item is produced or delivered where a vehicle brought it. A leg takes the time its time
     model gives for the distance between the exact exchange locations, plus loading and unloading once per journey; on link networks a
     journey follows existing links along a shortest path, its first one beginning at the node nearest to the vehicle.""",
     ["configurations", "schedules", "inputs"],
     """every enumerated layout (chains, rings, branches, input and output locations), speed, distance metric and number of vehicles, and every random outcome within the bounds""",
     TESTS + " The transport tests check throughput, not where a vehicle is.",
     [SIM + "control.py", SIM + "route_finder.py", SIM + "state.py", SIM + "time_model.py", SIM + "router.py"],
     [("TransportController", SIM + "control.py"), ("RouteFinder", SIM + "route_finder.py"), ("TransportState", SIM + "state.py"),
      ("DistanceTimeModel", SIM + "time_model.py")], LOG, note=NOTE, technique=TECH)

prop("P11", "No request waits for ever and no free resource idles beside waiting work",
     """When arrivals stop and failures are repaired, every product eventually leaves the system (for systems whose finite buffers cannot
     block each other in a cycle). At no moment does a resource that is free, not broken down and not changing over stay
     idle while a request that it could start waits for it.""",
     ["configurations", "schedules", "fault_sequences"],
     """every enumerated system whose material flow cannot block itself, every random outcome within the bounds, runs continued until the system is empty""",
     TESTS + " A lost wake-up needs one particular coincidence of events; throughput of a big run hides it.",
     [SIM + "control.py", SIM + "resources.py", SIM + "router.py", SIM + "store.py"],
     [("control_loop wake-ups", SIM + "control.py"), ("got_free events", SIM + "resources.py"), ("queue state events", SIM + "store.py")],
     LOG, note=NOTE, technique=TECH)

prop("P12", "Auxiliaries are held by one product at a time and are returned",
     """The number of auxiliaries of each type stays what the storages were filled with, each is in exactly one place, and each is
     used by at most one product at a time. A product that needs an auxiliary starts its relevant processes and transports only after the
     auxiliary was brought to it and has it released only afterwards; a released auxiliary is brought back to a storage and can be used again.""",
     ["configurations", "schedules", "histories"],
     """every number of auxiliaries, products and vehicles within the bounds, every moment of a run, every random outcome within the bounds""",
     TESTS + " Sharing needs fewer auxiliaries than products at the right moments.",
     [SIM + "auxiliary.py", SIM + "router.py", SIM + "product.py", SIM + "control.py", SIM + "store.py"],
     [("request and release", SIM + "auxiliary.py"), ("route_auxiliary_to_product", SIM + "router.py")], LOG, note=NOTE, technique=TECH)

prop("P13", "Batches are full, start together, end together and share one process",
     """A machine that works in batches starts a process only with exactly its batch size of products, all with the same process, and these products start and
     end at the same times. A full batch that waits in front of a free machine is started, and no product of a batch is lost,
     duplicated or processed in two batches.""",
     ["configurations", "schedules"],
     """every enumerated batch size, capacity, number and arrival pattern of products""",
     TESTS + " One batch test checks one throughput figure.",
     [SIM + "control.py", SIM + "resources.py"],
     [("BatchController", SIM + "control.py")], LOG, note=NOTE, technique=TECH)

prop("P15", "The event log is a complete and well-formed history of the run",
     """Event times never decrease and never exceed the simulated horizon; each activity of positive duration is logged as a start followed by alternating interruptions and
     resumptions and one end, with the resource, process, product, places and the empty or loaded flag it really had. The expected
     end that is logged with a start is the time at which the activity ends if it is not interrupted,
     and each product has one creation and at most one finish event.""",
     ["configurations", "schedules", "fault_sequences"],
     """every execution of the enumerated systems with all features, all random outcomes within the bounds""",
     TESTS + " The log is the base of every KPI; the tests only look at aggregates of it.",
     [SIM + "logger.py", SIM + "state.py", SIM + "product.py", "prodsys/util/post_processing.py"],
     [("state and product logging", SIM + "logger.py"), ("StateInfo", SIM + "state.py"), ("ProductInfo", SIM + "product.py")],
     LOG, note=NOTE, technique=TECH)

prop("P14", "Runs are reproducible and independent of each other",
     """Running the same system with the same seed gives the identical event log: again on the same or on an equal system, in another
     interpreter with another hash seed, and whatever was simulated, drawn from the global random generators or evaluated before.
     A run does not change its configuration, a shorter run is a prefix of a longer one, and another seed gives other random values.""",
     ["histories", "configurations"],
     """every sequence of preceding uses of the library up to the bound, every scenario system, several hash seeds""",
     "No test runs a system twice or in another order; state leaking between runs only shows in a comparison of runs after different histories.",
     [SIM + "sim.py", SIM + "time_model.py", "prodsys/util/runner.py", "prodsys/util/post_processing.py"],
     [("VARIABLE seed, temp_seed", "prodsys/util/util.py"), ("initialize_simulation, run", "prodsys/util/runner.py")],
     LOG, technique="enumeration of all histories of library uses up to a length bound, executed on the real code, with comparison of the complete event logs",
     note="Exhaustive over histories up to length 2 (quick) / 3 (thorough) of seven kinds of use; hash seeds are a fixed finite set. Trusts the interpreter and numpy.")

prop("P16", "KPIs agree with the event log they are computed from",
     """Throughput times, output, throughput, WIP over time (also per product), the share of time every resource spent productive, in standby, down,
     in setup or charging, availability and the production flow ratio equal the values that follow from the events of the run; the shares of a
     resource sum to 100 %. The exported events are the recorded ones.""",
     ["configurations", "histories"],
     """every execution of the scenario systems, cut at several horizons, including runs in which activities are still open""",
     "The tests compare a few KPI values of single runs with wide pinned ranges; wrong attribution of intervals stays inside them.",
     ["prodsys/util/post_processing.py", "prodsys/util/runner.py", SIM + "logger.py"],
     [("df_throughput, df_WIP, df_resource_states, df_aggregated_*", "prodsys/util/post_processing.py"), ("get_event_data_of_simulation", "prodsys/util/runner.py")],
     ["results of the post processor"] + LOG, technique="explicit-state exploration of the real simulator; on every execution the KPIs are compared with a reference evaluated on the event log",
     note="Utilisation is compared for resources with at most one machine breakdown, without process breakdowns, interrupted setups or work while charging; the mean WIP only for its range. " + NOTE)

prop("P17", "Time models return the values they specify, and sources follow them",
     """A time model yields exactly the values of its parameters: constants, samples drawn from the list with equal chance, sequences and schedules in order (absolute or relative,
     cyclic or once), distances by speed, metric and reaction time, and distributions through the stated parameters. Products arrive and activities last
     exactly as long as the values that their own time model yields, never negative.""",
     ["inputs", "configurations", "histories"],
     """every time model kind over a grid of parameters and long sequences of draws; every pair of arrival models; all activities of the scenario systems""",
     "The tests use a few distributions with one seed and look at averages of KPIs; boundary values, cycles and batches of draws are not looked at.",
     [SIM + "time_model.py", SIM + "source.py", "prodsys/models/time_model_data.py", "prodsys/util/statistical_functions.py"],
     [("get_next_time", SIM + "time_model.py"), ("create_product_loop", SIM + "source.py")],
     ["values returned by time models"] + LOG, technique="exhaustive enumeration of parameter grids, draw sequences and generator answers on the real time models and simulator against a reference",
     note="Distributions are checked by the parameters handed to the generators and the values taken from them, not statistically. " + NOTE)

prop("P18", "Inconsistent configurations are rejected before a run, consistent ones run",
     """A configuration that refers to an unknown object, requires a process, transport process or auxiliary that nothing offers, has no sink for the products
     of a source, or places two objects at the same location is rejected with a ValueError: by the constructor, when read from a file, and by validation after an assignment.
     A consistent configuration is accepted in all these ways, and simulating it raises no internal error.""",
     ["inputs", "configurations"],
     """every single edit (and in the thorough tier every pair of edits) of every reference and location field of base configurations that cover all object kinds""",
     "The tests construct valid configurations; the space of broken references is the product of all fields and all object kinds.",
     ["prodsys/adapters/adapter.py", "prodsys/adapters/json_adapter.py", "prodsys/models/resource_data.py", "prodsys/models/product_data.py"],
     [("field validators, validate_configuration, assert_*", "prodsys/adapters/adapter.py"), ("read_data", "prodsys/adapters/json_adapter.py")],
     ["acceptance or ValueError", "errors of a run"], technique="bounded exhaustive enumeration of edits of configurations, executed on the real validation and simulator, against an independent reference of consistency",
     note="Base configurations and replacement values are a fixed finite set; pydantic is trusted for the types of fields.")

prop("P19", "Saving and loading a configuration preserves it",
     """A configuration that is written to a file and read again, or dumped and validated again, has the same objects with the same values in the same order and the same hash, also when read into an object that held
     another system; writing it again gives the same file, and a run of the loaded system gives the identical event log. Writing does not change the configuration, and scenario data survive in their own file.""",
     ["inputs", "configurations", "histories"],
     """every scenario system of all families, every single edit of a value field of the base configurations, and a grid of scenario data""",
     "The tests round-trip a handful of configurations and compare a few fields.",
     ["prodsys/adapters/json_adapter.py", "prodsys/adapters/adapter.py"] + ["prodsys/models/queue_data.py", "prodsys/models/processes_data.py"],
     [("read_data, write_data, read_scenario, write_scenario_data", "prodsys/adapters/json_adapter.py"), ("field types", "prodsys/adapters/adapter.py")],
     ["contents of files and objects"] + LOG, technique="bounded exhaustive enumeration of configurations, each written, read and run on the real code and compared field by field and by event log",
     note="The deprecated Manhattan distance model is read back as its documented successor and compared by behaviour.")


prop("P20", "The hash identifies what a configuration is",
     """Two configurations have the same hash if they describe the same system: names and the order in which objects, references and options are listed do not matter. If they differ in the value of one documented property, or in one
     reference, or two values are exchanged between objects, their hashes differ. Product plans other than sequences are excluded (documented as not supported).""",
     ["inputs"],
     """every reordering and renaming, every single change of a value or reference and every exchange of two values, of a set of configurations with all kinds of objects""",
     "The tests pin a few hashes; a property left out of the hash or an order that leaks into it shows only for pairs of configurations that differ exactly there.",
     ["prodsys/models/", "prodsys/adapters/adapter.py"],
     [("ProductionSystemAdapter.hash", "prodsys/adapters/adapter.py"), ("hash", "prodsys/models/resource_data.py")],
     ["hash values"], technique="bounded exhaustive enumeration of pairs of configurations, real hashes compared with a reference notion of equal contents",
     note="control_policy, batch_size, product auxiliaries and the kind of a time model are not documented as part of the hash and not compared. Five open known findings (gap/...), whose repair changes hashes pinned by the tests.")

OPT = "prodsys/optimization/"

prop("P21", "Configuration operators keep systems consistent and in scope",
     """Every mutation, every crossover and every randomly generated configuration of the optimisation is a consistent system: unique IDs, existing references, complete process modules, matching
     capacities, own queues at machines, auxiliaries within the capacity of their (possibly shared) storage, and the setup and breakdown states that belong to its machines. A mutation never puts two machines at one position. An operator changes only what the allowed transformations of the scenario cover, adds and removes what its name says,
     shares nothing between individuals, and a crossover only exchanges parts of its two parents.""",
     ["inputs", "histories"],
     """every configuration reached by up to the stated number of mutations, every crossover of every pair, every random configuration, over every answer of the random generators""",
     "The tests run the optimisers once with one seed and check that they end; a rare operator outcome that corrupts an individual stays unseen.",
     [OPT + "adapter_manipulation.py", OPT + "util.py"],
     [("mutation, crossover, random_configuration", OPT + "adapter_manipulation.py"), ("adjust_process_capacities, add_setup_states_to_machine", OPT + "util.py")],
     ["configurations before and after an operator"], technique="explicit-state search over configurations: all outcomes of the real operators under an enumerated random generator, each transition checked",
     note="Base systems are a fixed finite set (scenario limits that admit at least one configuration, no link networks); depth of mutations 2 (quick) / 3 (thorough), states capped. Trusts pydantic.")

prop("P22", "Optimisation accepts exactly the configurations within the limits",
     """A configuration is accepted by the optimisation if and only if it respects the limits of the scenario: numbers of machines, transport resources and process modules, possible positions, unique places,
     availability of all required processes and auxiliaries, and the cost limit. The reconfiguration cost is the price of the machines, transport resources, process modules and auxiliaries
     added to the base system. Every accepted configuration can be simulated without an internal error.""",
     ["inputs", "histories"],
     """every configuration reached by mutations, and every single edit of it towards and across each limit""",
     "The tests check that optimisers end; an acceptance that is off by one for one limit only changes which solutions are found.",
     [OPT + "optimization.py", OPT + "util.py"],
     [("check_valid_configuration, get_reconfiguration_cost", OPT + "optimization.py")],
     ["acceptance, cost"], technique="explicit-state search over configurations reached by the real operators, the real acceptance and cost compared with a reference in each state",
     note="Base systems are a fixed finite set; depth and number of states bounded. Scenarios whose baseline lacks auxiliaries are not considered.")

prop("P23", "Optimisers report the true performance of the configurations they save",
     """The fitness of a configuration is the mean over the requested seeds of its objectives in separate simulations, in the order of the scenario, or the penalty if it is outside the limits; a result is reused only for
     a configuration that performs equally. In a complete run of an optimiser (from objects or files, with or without initial solutions) every reported solution has a readable file whose simulation gives the reported fitness and weighted sum (and, when full results are asked for, its event log),
     and the best solution reported is the best one evaluated.""",
     ["histories", "inputs"],
     """every configuration reached by mutations; every sequence of evaluations of related configurations up to the bound; runs of all three optimisers under every sequence of random answers with a bounded number of deviations""",
     "The tests pin the result of one seed per optimiser; wrong reuse of results needs two configurations that differ in one aspect in one run.",
     [OPT + "optimization.py", OPT + "util.py", OPT + "evolutionary_algorithm.py", OPT + "simulated_annealing.py", OPT + "tabu_search.py"],
     [("evaluate", OPT + "optimization.py"), ("document_individual", OPT + "util.py")],
     ["fitness, saved files, result file"], technique="deviation-bounded exploration of the real optimisers under an enumerated random generator, and enumeration of all evaluation histories up to a length; compared with separate simulations",
     note="Small budgets (2 generations of 4, 4 annealing steps, 1 tabu step); 1 deviation in quick, 2 (capped) in thorough. The mathematical optimisation needs a commercial solver and is not covered.")

prop("P24", "The web service stores, simulates and returns exactly what was requested",
     """After every sequence of requests, reading projects, systems, their objects, scenarios, objectives and results returns exactly what was stored last; other projects and systems are untouched. IDs stay unique. Requests about missing
     things or taken IDs are refused with a client error and change nothing. The performance (KPIs, events, every chart) read for a system is that of simulating this stored system with the requested seed and length,
     and is gone once the system is changed or deleted. Optimisation results, best solution and registered solutions are those of the optimisation run.""",
     ["histories", "inputs"],
     """every sequence of requests of a finite alphabet up to the stated depth or to the fixpoint of the stored states, requests handled one after the other""",
     "The tests do not cover the web service; state that survives a deletion or leaks between equally named systems shows only after particular request sequences.",
     ["app/", "prodsys_api.py"],
     [("InMemoryBackend", "app/backends/in_memory.py"), ("run_simulation, prepare_adapter_from_optimization", "app/dependencies.py"), ("add, update, delete", "app/dao/resources_dao.py")],
     ["HTTP requests and answers"], technique="explicit-state search over request sequences against the real application, every transition compared with a reference store",
     note="In-memory backend. Adding or removing single objects does not check references. The pareto front endpoint (unusable for other objectives than three fixed names) and progress figures are not covered.")

prop("P25", "Building with express objects gives the configuration they describe",
     """After every construction sequence, converting a production system of express objects yields a valid configuration with exactly one entry, with equal contents, for each object that the system uses (shared objects once)
     and one own queue of the stated capacity per side of a resource, source and sink. Conversion changes nothing: converting between or after construction steps gives the same configuration, and running the system is running this configuration with the given seed and length.""",
     ["histories", "inputs"],
     """every ordered sequence of construction steps up to the stated depth, and every set of steps one beyond it, with conversions after every step or only at the end""",
     "The tests build four systems once; objects lost or doubled show only for combinations of owners and kinds.",
     ["prodsys/express/", "prodsys/adapters/adapter.py"],
     [("ProductionSystem.to_model", "prodsys/express/production_system.py"), ("to_model", "prodsys/express/resources.py"), ("LinkTransportProcess", "prodsys/express/process.py")],
     ["configuration returned by to_model, its simulation"], technique="bounded exhaustive enumeration of construction histories on the real express objects, every reached configuration compared with a reference built from data models",
     note="Links given as a dictionary cannot be constructed (objects are not hashable) and are not covered; object names are unique.")

prop("P26", "The control environments carry out exactly the decisions of the agent",
     """In the sequencing and routing environments the agent is asked only with a non-empty menu of genuine possibilities, every decision point and only the controlled decisions; the chosen request is the next one that the
     resource starts, the chosen resource is the one that serves the product, and an invalid answer is reported as such and replaced by a possible one. Observations show the products in the queues and in process.
     An agent that always takes the first request gives the history of FIFO; a second episode with the same decisions repeats the first; and every history obeys the rules of the simulation.""",
     ["schedules", "histories"],
     """every sequence of answers of the agent (each entry of the menu and one outside) and of the random replacement of invalid answers with a bounded number of deviations, on eight systems and each controlled resource""",
     "The tests do not run these environments; a decision that comes too late or is lost shows only in the history that follows.",
     ["prodsys/control/", "prodsys/simulation/observer.py", "prodsys/simulation/control.py", "prodsys/simulation/router.py"],
     [("AbstractSequencingControlEnv.step", "prodsys/control/sequencing_control_env.py"), ("AbstractRoutingControlEnv.step", "prodsys/control/routing_control_env.py"),
      ("agent_routing_heuristic", "prodsys/simulation/router.py")],
     ["answers of step, event log"], technique="deviation-bounded exploration of all agent decisions on the real environments, histories compared with the decisions and with the reference monitors",
     note="Deterministic times, endless arrivals, production queues without stores; batch machines not controlled. Seeding of episodes is not covered.")

prop("P27", "The queue helpers give every object its own queues and touch nothing else",
     """After adding default queues to a system, every machine has exactly one default input and one default output queue of the requested capacity, sources and sinks without queues have one, sources and sinks with queues keep
     them, queues that nothing refers to are removed (where the helper is about removal), no queue is listed twice, nothing else changes, and a completed system is valid and can be simulated - whatever was edited before and however
     often the helpers are applied.""",
     ["histories", "inputs"],
     """every sequence of helpers and edits of queue references up to the stated depth, from four base systems""",
     "The tests apply one helper once to a system without queues; repeated and mixed use is what optimisation does.",
     ["prodsys/adapters/adapter.py"],
     [("add_default_queues_to_resources", "prodsys/adapters/adapter.py"), ("add_default_queues_to_sources", "prodsys/adapters/adapter.py"), ("remove_unused_queues_from_adapter", "prodsys/adapters/adapter.py")],
     ["configuration after each helper, its validation and simulation"], technique="breadth-first explicit-state search over helper and edit sequences on the real helpers against a reference",
     note="Machines that use a store as own queue are not covered.")

prop("P28", "With the warm-up cut off, results describe the same later products",
     """With the warm-up cut-off enabled, all results describe exactly the products created from one common time on: the earliest of the cut points that the chosen method finds for the product types on the throughput times in the order
     of creation. Every product type with finished products remains, nothing is cut when there are too few products, and the tables of the whole run stay untouched. Outputs, throughput, mean throughput time, mean WIP, state shares of
     the resources, flow ratio and the aggregated results of a runner come from that part. The static method cuts the first 15 percent, the threshold method cuts until all later changes of the running average are below a tenth
     of their mean, MSER-5 cuts whole batches of five so that the standard error of the rest is smallest, keeping at least half of the batches.""",
     ["inputs", "histories"],
     """every series of throughput times over a small alphabet up to the stated length for each method; every pattern of processing times of one and two product types, cut by each method""",
     "The test with cut-off only checks that results exist; a wrong cut changes averages by amounts nobody can predict by hand.",
     ["prodsys/util/warm_up_post_processing.py", "prodsys/util/post_processing.py", "prodsys/simulation/runner.py"],
     [("get_warm_up_cutoff_index", "prodsys/util/warm_up_post_processing.py"), ("get_warm_up_cutoff_time, df_* with warm_up_cutoff", "prodsys/util/post_processing.py")],
     ["results of the post processor with and without cut-off", "event log"], technique="bounded exhaustive enumeration of series and of simulated histories on the real evaluation against an independent reference",
     note="Products of one type are created at different times. The mean WIP is the mean of the logged values after the cut-off, the state shares those of the time from the cut-off on.")

prop("P29", "Batteries are charged between jobs, exactly when they are used up",
     """A machine or vehicle with a battery charges exactly when the planned working time (processing, empty and loaded drives with loading and unloading; no setups) of its jobs since the last charging reaches 90 percent of the
     battery time. Charging begins the moment the job ends, lasts one charging time, resets the usage, and meanwhile no job begins or runs; a request that waits is served when it ends. Several batteries are judged and charged one by
     one, and resources without a battery never charge.""",
     ["configurations", "schedules", "histories"],
     """every sequence of processing, driving and charging times over small value sets and every schedule of arrivals over a few gaps, for machines and vehicles with one or two batteries""",
     "The charging test compares aggregates of one example; whether charging begins one job too late or does not reset the usage depends on exact sums along a history.",
     [SIM + "state.py", SIM + "resources.py", SIM + "control.py"],
     [("ChargingState", SIM + "state.py"), ("requires_charging, charge", SIM + "resources.py"), ("control_loop", SIM + "control.py")],
     LOG, technique=TECH,
     note="Resources of capacity one without breakdowns. Judged up to the moment at which a request reaches the resource during work: from then on charging may overlap work, which is recorded as known finding with two dedicated scenarios.")

prop("P30", "Charts, reports and exports show the results of a run and change none of them",
     """Every chart of the KPI visualisation shows exactly the values of the result table it is about: densities of throughput times, running averages of throughput time and WIP (per type, per resource, total), state shares,
     utilisation, OEE, flow ratio, mean WIP and totals. The printed report contains the tables. Reading results, in any order and repeatedly, gives the same values: no table, KPI list, chart or report depends on what was read
     or drawn before. Results exported as CSV and read back give the same tables and KPIs, the JSON export and the performance data of the runner contain exactly the events and KPIs of the run.""",
     ["histories", "inputs"],
     """every sequence of two (thorough: three) of the 52 readings, repeated ones included, on two histories; every chart and export on the histories of twelve systems within the deviation bound, with and without warm-up cut-off""",
     "No test looks at a chart; a chart that edits a shared table corrupts what is read next, which shows only for particular pairs of readings.",
     ["prodsys/util/kpi_visualization.py", "prodsys/util/post_processing.py", "prodsys/simulation/runner.py", "prodsys/simulation/logger.py"],
     [("plot_* functions", "prodsys/util/kpi_visualization.py"), ("cached results", "prodsys/util/post_processing.py"), ("save_results_as_csv, save_results_as_json, get_performance_data", "prodsys/simulation/runner.py")],
     ["traces of the charts, result tables, exported files"], technique="bounded exhaustive enumeration of reading sequences on the real post processor and charts, compared with fresh ones and with an independent reference",
     note="Tables are judged by P16 and P28; rendering to images and the bounds in the WIP range chart are not covered.")

prop("P31", "The analysis of an optimisation selects exactly the best configurations",
     """For every results file of an optimiser, the analysis lists exactly the evaluated configurations, each once with its generation, position, fitness and time, and the selection of the best ones, for all directions of the
     objectives, contains for each combination of objective values that no other evaluated configuration dominates one configuration with it, and no dominated one. The same holds for both filters on any matrix of costs.""",
     ["inputs"],
     """every sequence of up to 4 (thorough: 5) fitness vectors over small alphabets with 1 to 4 objectives, every split over the generations, unevaluated and repeated entries, all directions of the objectives""",
     "No test looks at the selection; a filter that goes wrong for some order of the points still returns plausible fronts.",
     [OPT + "optimization_analysis.py"], [("is_pareto_efficient, is_pareto_efficient_simple, get_pareto_solutions_from_result_files", OPT + "optimization_analysis.py")],
     ["returned masks, tables and IDs"], technique="bounded exhaustive enumeration of results files and cost matrices on the real functions, compared with the definition of dominance",
     note="Enumeration of inputs of pure functions, no schedules involved. Files without any evaluated configuration are left out.")
