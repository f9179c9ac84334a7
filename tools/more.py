prop("C16", "What the outside world refuses is reported, and loses nothing else",
 "When a source cannot be opened or fails while it is read, a program cannot be started, or a destination cannot be created or fails at any byte or when it is flushed, pa2 ends with a failure that names that component - every one of them when there are several. Everything from before the failure is delivered first, and pipelines which have nothing to do with the failed component are delivered in full.",
 SCHED+["fault_sequences"], "every position of the failure in the data, every kind of failure and destination, several failures together, every shape around the failing component, every interleaving",
 TESTS+"no test has a read, write, open or spawn fail.",
 ["src/motion.rs","src/faucet.rs","src/drain.rs","src/launch.rs","src/waiter.rs","src/bin/pa2.rs"],
 "errors of every component are collected by the waiter and printed together at the end", "exit status, the errors printed and the bytes in the destinations")
prop("C17", "Destinations get exactly what was drained",
 "When pa2 ends, a drain's file holds exactly the bytes sent to it (replacing what was there; an empty file if nothing was sent), and likewise standard output for \"-\" and standard error for \"_\"; all of it is written out even if something else in the pipeline failed. This is so whatever the destination is: a new file, an old one (which keeps its mode and its other names), what a link leads to, a pipe or a device. While processing succeeds pa2 prints nothing else on standard output or standard error, so its output can be piped on.",
 SCHED+["fault_sequences"], "every kind of drain and content, destinations that accept only part of a write, several drains to one stream, failures elsewhere, every interleaving",
 TESTS+"drains are tested with a single in-memory write.",
 ["src/drain.rs","src/motion.rs","src/waiter.rs","src/config_manip.rs","src/bin/pa2.rs"],
 "each drain writes messages through a buffered writer and flushes at the end", "file contents, standard output and standard error of pa2")
ENUM = ("exhaustive bounded enumeration (explicit-state: configurations, edit sequences, strings up to a length) with an independent executable model as the oracle, every case executed on the real crate or pa2 binary")
ENUM_NOTE = ("Exhaustive over the stated finite space of inputs, compared with an independently written model. Trusts that model and that the stated alphabets and sizes are representative. "
             "Nothing between the input and the verdict is modelled: the cases run the real code.")
CONFT = "The tests look at a few hand-written configurations, one code path at a time; "
prop("C18", "The connection language means what is documented, everywhere",
 "A connection text is a chain of components \"type:name\" (short or long type; letters, digits, underscore) joined by |, |T|, |C| or |F|, with an optional output [O] [E] [X] before the pipe and a priority [n] after it, and it is understood as exactly those components, ports, kinds of pipe and priorities, whatever the spaces around the pipes. The first component has no priority, the last no output, and there are at least two or none. Anything else is refused with an error naming the connection - by lint, manipulate, graph and process alike - and never panics or is partly taken.",
 ["inputs"], "every sequence of up to 6 (thorough 7) tokens, everything within one or two edits of typical connections, every combination of types, ports, pipes, spaces and priorities",
 CONFT+"the parser is tested on a dozen strings.",
 ["src/config.rs","src/bin_support.rs","src/bin/pa2.rs"],
 "a peg grammar turns a string into a list of connections; conversion errors are collected as warning 0003", "the connections printed by config manipulate, and the errors",
 technique=ENUM, note=ENUM_NOTE)
prop("C19", "What pa2 adds to a configuration does not change its meaning",
 "Before running, pa2 splits connections into pairs, puts junctions where several connections share an output or an input, and watches the exits nobody else does. The result means what was written: every output still reaches every receiver named for it as often as named, with its kind of pipe and (where inputs meet) its priority, nothing reaches anything else, all configured components are unchanged, and no generated name collides with one in use.",
 ["configurations"]+["schedules"], "every set of up to 4 (thorough 5) connections over a set of components with names the program would choose itself; attributes on every two and on those that meet; every acyclic shape up to a size run under schedules; hash seeds",
 CONFT+"collisions and combinations of fan-in and fan-out on one edge are not among them, and hash order varies.",
 ["src/config_manip.rs","src/config.rs","src/waiter.rs"],
 "rebuild_pair_up, add_junctions and add_launch_exit_spies rewrite the connection map", "the prepared configuration, and the bytes delivered when it is run",
 technique="exhaustive enumeration of connection sets against a graph-reachability oracle on the real manipulation code, plus model checking of the resulting pipelines under a controlled scheduler and the real binary")
prop("C21", "Editing commands change exactly what they name",
 "pa2 config reads a configuration (YAML or JSON, file or stdin) and prints it with exactly the requested change and nothing else altered, lost or added; its output can be read again (as either format) and means the same, so any sequence of edits gives what the edits say. The input file is never modified. What cannot be done (no id, bad watermark, bad environment, bad connection, unreadable configuration) is refused with a message and a failing exit, printing no configuration.",
 ["histories","inputs","configurations"], "every editing command with awkward values on every starting configuration, sequences of two and three (thorough four) edits fed into each other, through both formats",
 CONFT+"the editing commands are not tested at all.",
 ["src/bin/pa2.rs","src/bin_support.rs","src/config.rs"],
 "clap subcommands mutate Config and print it with serde_json", "what pa2 config prints, its exit status and the file",
 technique=ENUM+"; breadth-first over edit sequences", note=ENUM_NOTE, state=[{"name":"configuration","meaning":"the JSON object after the edits so far"}])
prop("C22", "Mistakes in a configuration are found before anything starts",
 "Lint reports every component that is used but not configured, configured but not used, every connection that is not a flow and every monitored buffer that does not exist - each once, nothing else - and prints a correct configuration back. process and graph refuse the same mistakes (an unused component alone is accepted), and when they refuse, no program is started and no destination is created or emptied. Components used against their nature (inputs to faucets, outputs from drains, error ports of what has none) are refused too.",
 ["configurations"], "every combination of connections, declared components and regulators of a family, also with names like the generated ones; every misuse of a component type in chains of two and three",
 CONFT+"lint is tested on one configuration.",
 ["src/bin_support.rs","src/bin/pa2.rs","src/config.rs","src/config_manip.rs","src/waiter.rs"],
 "the set of components in connections is compared with the set in the configuration", "the errors, exit status and files after lint, process and graph",
 technique=ENUM, note=ENUM_NOTE)
prop("C23", "The graph shows exactly the configuration",
 "pa2 graph prints a valid DOT graph, whatever the names, with exactly one node for every component used, looking like its type in the legend and labelled with its name, and exactly one edge for every pair of connected components (as often as they are connected) showing the output port; components are grouped by their connection. The legend explains all six types, is shown as the options ask and does not depend on the configuration.",
 ["configurations","inputs"], "every pair and chain of types and ports, every set of two (thorough three) connections over a few components, awkward names in every position, every option",
 CONFT+"no test looks at the graph.",
 ["src/graph.rs","src/bin/pa2.rs"],
 "get_graph turns the connections into DOT", "the printed graph, as read by an independent DOT parser and by dot itself",
 technique=ENUM, note=ENUM_NOTE)
prop("C24", "The same pipeline can be written in different ways",
 "What a configuration does is independent of how it is written: connections as text in long or short spelling or as lists, one chain or one connection for each pair, in any order and under any names, in YAML or JSON. All have the same connections after config manipulate (and manipulating again changes nothing), the same graph edges and the same behaviour when run.",
 ["configurations","schedules"], "128 ways of writing each of a set of pipelines with fan-outs, merges, priorities and all ports and pipes, drawn, manipulated and run under explored schedules",
 CONFT+"equivalence of spellings is not tested.",
 ["src/config.rs","src/config_manip.rs","src/bin/pa2.rs","src/graph.rs"],
 "text is converted to lists of connections, and these to pairs, before use", "the printed configuration, the graph, and the bytes delivered",
 technique="exhaustive enumeration of equivalent configurations, each executed on the real binary and model checked under a controlled scheduler")
prop("C25", "Whoever watches a pipeline is told everything",
 "A program which runs a pipeline through the library and attaches a spy is told of every message of every connection, once, in its order and unaltered, with the right source, destination and port, and of nothing else; no message of a connection is told after its end. What is delivered is the same with a spy as without, however slow it is, and the pipeline also ends when the spy leaves before the end.",
 SCHED, "every type of component and shape, spies over channels of any size, slow ones, ones that begin when all is blocked, ones that leave, every interleaving",
 TESTS+"no test has a spy look at more than one component.",
 ["src/waiter.rs","src/motion.rs","src/junction.rs","src/launch.rs","src/faucet.rs","src/drain.rs","src/buffer.rs","src/regulator.rs"],
 "motion sends a SpyMessage for what it pulls or pushes; junctions and exit statuses do so on their own", "what the spy is told, against what went in and came out of every component, and the destinations")

prop("C26", "pa2's own pauses neither set the pace nor let it spin",
 "Where pa2 looks again and again at what there is to do (what a buffer holds, whether an input of a junction has something, whether a regulator may open) it does so often enough that its own pauses do not set the pace: all of them together stay within some seconds for each time its inputs and programs keep it waiting, and do not grow with the number of messages beyond a few milliseconds for each. And it does so seldom enough that waiting costs next to nothing: while nothing happens it looks every few seconds only, and uses no noticeable processor time.",
 SCHED, "every type of component and shape, from a few to thousands of messages, every combination of pauses of whoever feeds and whoever reads, rests of up to 15 minutes, several regulators and buffers",
 TESTS+"no test looks at how long anything takes or how often anything is polled.",
 ["src/back_off.rs","src/buffer.rs","src/junction.rs","src/waiter.rs","src/launch.rs"],
 "polling loops wait for the square of the number of fruitless looks in milliseconds, at most 2.6 s, and start again after one that was not", "the virtual time at which pa2 ends, and the number of steps it takes, compared with the pauses of inputs and programs; the time and processor time of the real binary")
