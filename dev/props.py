"""The properties: text, anchors, and how each is decided. dev/gen.py writes the three committed files from this."""
S = "src/python/deepgnn/graph_engine/snark/"
G = "src/python/deepgnn/graph_engine/"

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), decided="", bounds="", note=""):
    PROPS.append(dict(
        id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism,
        state=state, observe=observe, decided=decided, bounds=bounds, note=note,
    ))


NA = []

prop(
    "P01", "Partition index files always point at the data they describe",
    "Whatever nodes, edges and features a partition is given, every offset stored in one of its binary files is the position "
    "at which the described entry begins in the file it refers to, and a closing entry gives the end of the last one. "
    "Every record has the fixed field order and widths the loader reads, so that entry k of each index describes element k.",
    ["inputs", "histories"], "every sequence of nodes, edges and feature lists (including absent features and nodes without edges) given to the partition writers",
    "Tests convert four or five tiny graphs and read a handful of bytes back; the offsets are running sums over an unbounded sequence of "
    "records and are only wrong for particular mixes of missing features, edge-less nodes and order of calls.",
    [S + "converter/writers.py", S + "meta.py"],
    [("running positions of the feature data and index files", S + "converter/writers.py"), ("closing entries written when a partition is closed", S + "converter/writers.py")],
    [("feature data position", "bytes of feature data written so far", S + "converter/writers.py"), ("neighbour index", "first edge record of each node", S + "converter/writers.py")],
    ["contents of node_*.map, node_*.index, edge_*.index, *_features_*.index, *_features_*.data, neighbors_*.index"],
    decided="The public writer classes are analysed with a driver that constructs each one, adds an arbitrary sequence of elements in a loop "
    "and closes it. The dataflow engine gives the final contents of every opened file as a closed form over the sequence "
    "(per-element fields, prefix sums, closing record). A specification of the files, written against the file format, is evaluated by the "
    "same engine, and the two closed forms are compared file by file.",
    bounds="no bound on the number of elements or features; file growth is summarised, not unrolled",
)
prop(
    "P03", "Each decoded element is written once, to every file that must describe it",
    "Every decoded node and edge appears exactly once, in input order, in each output that describes elements of its kind; an edge whose source node is not "
    "in the partition is preceded by one placeholder for that node. Switching off a sampler only leaves out the corresponding sampling tables. "
    "Edges out of type order, or living outside the life time of their source node, are rejected.",
    ["inputs", "histories", "configurations"], "every sequence of decoded records, both sampler switches and temporal or plain graphs",
    "The order and mix of records (orphan edges after a node, repeated sources, gaps between types, times on the boundary) is unbounded; tests use a few fixed graphs.",
    [S + "converter/writers.py"],
    [("dispatch of one decoded record to the element writers", S + "converter/writers.py"), ("order and life time assertions", S + "converter/writers.py")],
    [("current source node and last edge type", "decide on placeholders and on rejection", S + "converter/writers.py")],
    ["calls of the element writers, the files they leave, rejected inputs"],
    decided="One driver feeds an arbitrary sequence of records to the partition writer; every call of an element writer or sampling table is logged by the engine with its gate "
    "and loop, in order. The logs, the temporal file contents and the condition under which an input is rejected are compared with those of a short "
    "specification evaluated the same way.",
    bounds="any number of records per call and any number of calls",
)
prop(
    "P04", "Metadata totals equal what was written, through every stage",
    "Node and edge counts, per-type counts, per-partition weights, type and feature totals and the watermark saved in the metadata file are exactly the sums, maxima or values over "
    "the elements that were written, for any number of partitions and of independent conversion workers. Merging the metadata of several workers keeps every "
    "partition's weights under its final partition number, and reading the file back returns what was saved.",
    ["inputs", "configurations"], "every distribution of elements over partitions and workers, including partitions that never see some of the types",
    "Totals travel through five hand-written stages (writer, worker reply, dispatcher, converter, merger); tests use at most two partitions with equal types and no merge of more than ten workers.",
    [S + "converter/writers.py", S + "converter/process.py", S + "dispatcher.py", S + "convert.py", S + "meta_merger.py", S + "meta.py"],
    [("reply of a conversion worker", S + "converter/process.py"), ("aggregation and zero padding of replies", S + "dispatcher.py"), ("metadata file", S + "convert.py"), ("merge of metadata files", S + "meta_merger.py")],
    [("per type counts and weights", "grow with the highest type seen", S + "converter/writers.py")],
    ["meta.json", "attributes of the loaded metadata"],
    decided="Six drivers, one per stage. Writer counters, the reply a worker sends, the aggregate a dispatcher exposes, every field of the saved JSON object, every field of the merged object "
    "and every attribute read back are closed forms over symbolic inputs; each is compared with the required closed form (sums, maxima, padding with zeros, numeric order of files).",
    bounds="any number of records, partitions and workers",
)
prop(
    "P05", "Every input line reaches exactly one partition and is written before the end",
    "Each line of the input is decoded and written by exactly one partition worker, in the order it was read, and workers are given exactly the partition numbers that belong to "
    "this conversion worker. The conversion finishes only after every worker that received data has closed its files and replied, and a worker that did not finish properly is not accepted. "
    "Options given to the converter reach every worker.",
    ["inputs", "configurations", "schedules"], "every number of lines, partitions and conversion workers, both kinds of dispatcher, threads or processes, whatever order the workers reply in",
    "Losing one line, one option or one worker's last batch depends on counts that tests never reach (more partitions than lines, uneven division of partitions between workers).",
    [S + "dispatcher.py", S + "converter/process.py", S + "convert.py"],
    [("round robin and keyed routing", S + "dispatcher.py"), ("end marker and worker reply", S + "converter/process.py"), ("share of partitions of a conversion worker", S + "convert.py")],
    [("pipes or queues, one per worker", "channel of one partition", S + "dispatcher.py")],
    ["lines sent per channel, order of closing and replying, arguments of the started workers"],
    decided="Drivers run the worker function on an arbitrary channel, both dispatchers on an arbitrary sequence of lines, and the converter with the dispatcher left abstract. "
    "Sends, worker arguments, starts, replies awaited, writer construction, add, close and reply are logged in order with gates, and compared with the specification's log.",
    bounds="any number of lines and workers; scheduling is abstracted by letting replies arrive in any order (replies are opaque values)",
)
prop(
    "P07", "A JSON or TSV line decodes to exactly its node, then its ordered edges",
    "A line in JSON or tab separated format yields its node first and then each listed edge once, with the identifiers, type, weight and times written in the line and the documented "
    "defaults where they are missing (an edge without times has its node's). Edges come in order of type, then times, then destination. Feature vectors are kept at their position with their numeric type, gaps being left empty.",
    ["inputs"], "every line of either format, with any subset of optional fields, any number of edges and features",
    "Optional fields combine freely; tests decode a few complete lines, so a default or an order that is wrong for one missing field goes unnoticed.",
    [S + "decoders.py"],
    [("edge ordering keys", S + "decoders.py"), ("feature list with gaps", S + "decoders.py"), ("defaults of missing columns and times", S + "decoders.py")],
    [],
    ["records produced by decoding a line"],
    decided="Each decoder is constructed and its decode generator collected into a list by a driver; the engine gives the list as a closed form over the parsed line (fields as gated values, the sort as "
    "an uninterpreted stable sort with its key expression, feature slots as a fold). A specification decoder is evaluated the same way and the two lists are compared.",
    bounds="any number of edges and features; the byte layout of time-dependent feature vectors is left abstract; the comma separated edge list format is not part of this property",
)

prop(
    "P08", "Sampling tables give every element its share of the weight",
    "For every type of every partition the stored sampling table lists each element once with a probability and an alternative such that drawing a row uniformly and then "
    "keeping the element or taking its alternative selects every element in proportion to its weight. The table of a type holds exactly the elements added for it, "
    "whatever the order of additions and however the weights are spread.",
    ["inputs", "histories"], "every sequence of additions to the tables of any types and every vector of positive weights",
    "The pairing loop takes a different course for every weight vector and its last elements depend on rounding; tests draw a few samples from two tables.",
    [S + "alias.py", S + "converter/writers.py"],
    [("pairing of small and large weights", S + "alias.py"), ("collection of ids and weights per type and their table files", S + "converter/writers.py")],
    [("two work lists, remaining weights", "pairing state", S + "alias.py"), ("temporary id and weight files per type", "elements added so far", S + "converter/writers.py")],
    ["node_*.alias and edge_*.alias files, drawn samples"],
    decided="The alias writers are analysed with additions to two types in any order; the closed form of the complete table files must equal that of a specification. The pairing loop is decided as a "
    "transition: its start values, one arbitrary round on its variables (both lists, table, probabilities, remaining weights), its stopping condition and the treatment of what is left "
    "must be those of the alias method. Drawing is compared with its specification.",
    bounds="any number of elements; one arbitrary round of the loop covers all rounds; arithmetic rounding is not modelled",
    note="a comparison with one may include or exclude equality, which does not change the distribution",
)
prop(
    "P09", "Feature bytes are a fixed function of each feature's values",
    "Every feature of an element is stored as the bytes of its values in row order, text as UTF-8, and sparse features as number of coordinates, dimension, coordinates and values, "
    "each with the width the loader reads. Missing features and empty sparse ones stay absent, so later features keep their position, and sparse features whose coordinates do not match their values are rejected.",
    ["inputs"], "every list of features mixing absent, dense, text and sparse ones of every type and shape",
    "Lengths, types, memory layouts and combinations of features are unbounded; tests check three small graphs.",
    [S + "converter/writers.py"],
    [("encoding of one feature list", S + "converter/writers.py")],
    [], ["bytes in node_features_*.data and edge_features_*.data"],
    decided="The encoder is analysed for an arbitrary list of features; the list of byte strings it returns and the condition under which it rejects the list are compared with a specification, after giving "
    "the several ways of taking the raw bytes of an array one name.",
    bounds="any number of features and values; numpy conversions are taken as documented",
)
prop(
    "P10", "Samplers hand out every element to exactly one loader, as announced",
    "Over all workers and their data loaders a sampler delivers every element of its files or range once per epoch, in file order or in a fresh order per epoch when shuffling, in batches of the requested size; "
    "only the last batch may be incomplete, and it is dropped or filled up with the given value. Each element keeps its columns together, iterating a second time starts over, and the announced number of "
    "batches is the rounded share of the data; graph samplers deliver the announced number of batches of the requested types and strategy.",
    ["inputs", "configurations", "histories"], "every file content, range, batch size, number of epochs, shuffle and drop setting, number of workers and loaders and their indices, and any number of calls",
    "The existing samplers tests need a compiled library and are not run; even so they fix a few sizes, while off-by-one errors appear only for particular remainders of size, batch, worker and loader count.",
    [G + "samplers.py"],
    [("share of files and lines of a worker", G + "samplers.py"), ("offsets of a data loader", G + "samplers.py"), ("padding of the last batch", G + "samplers.py"), ("announced number of batches", G + "samplers.py")],
    [("iterator offset", "position of the next batch", G + "samplers.py"), ("index of all epochs", "order of delivery", G + "samplers.py")],
    ["batches returned by each call, end of iteration, length of the sampler"],
    decided="Every sampler class is constructed by a driver with symbolic settings (and again with its defaults) and asked for an arbitrary number of batches. The engine gives batch k, the condition under which "
    "iteration ends and the announced length as closed forms over the files read; each is compared with a short specification after array expressions were brought into one normal form "
    "(padding, slices, rounding, strided walks).",
    bounds="any sizes; numpy operations are taken as documented; the line based text sampler is not part of this property",
    note="workers shuffle independently of each other; loaders of one worker are assumed to share the seed",
)
prop(
    "P11", "Calls into the native library fit its functions and report its failures",
    "Every call into the compiled graph library passes as many arguments as the exported function takes, each of the width and pointer type it expects, callbacks included, and the declared types agree with them. "
    "Memory the library writes to belongs to an array that is kept for the result. Whenever the library reports a failure the caller gets an exception and no result.",
    ["inputs", "configurations"], "every query, sampler and server call with any arguments, and every status the library may report",
    "The compiled library is absent from the tests, and a wrong width or a missing status check shows only with large values, on particular platforms or when something fails.",
    [S + "client.py", S + "server.py", S + "meta.py", "src/cc/lib/py_graph.h"],
    [("declared argument types and status checks", S + "client.py"), ("callback signatures", S + "client.py"), ("exported functions", "src/cc/lib/py_graph.h")],
    [("result buffers", "memory filled by the library", S + "client.py")],
    ["arguments of each native call, exceptions raised from its status"],
    decided="The exported functions are read from the C header. The analyses of P12 and P13 meet every native call of the client, samplers, server and metadata code; at each of them the wrapped argument, "
    "the declared types and the callback signature in force are compared with the header, and the status is checked to be turned into an exception.",
    bounds="all native functions reached from the public classes; the library itself is not analysed; a type that is not resolved is left undecided",
)
prop(
    "P12", "A graph query asks the library exactly what its caller asked and returns it",
    "Every query of a local or remote graph hands over the caller's nodes, edges, times, features, counts and fill values unchanged, edge types sorted and without duplicates, and a random seed only when none was given. "
    "It returns what the library delivered, with missing values filled as requested, in the shape and type documented, and refuses arguments that do not fit together. "
    "Opening hands over the listed partitions, places, storage, certificates, options and retry policy; a query of a remote graph is repeated as that policy says and one of a local graph is not.",
    ["inputs", "configurations", "fault_sequences"], "every combination of arguments of every query and sampler including omitted ones, every retry configuration, every failing attempt",
    "All these calls need the compiled library, which the tests do not have; combinations of optional arguments are many and most errors show for one of them only.",
    [S + "client.py"],
    [("marshalling of arguments", S + "client.py"), ("result buffers and callbacks", S + "client.py"), ("retry policy from connection options", S + "client.py")],
    [("native handle, retry policy, metadata", "open graph", S + "client.py")],
    ["arguments received by the library, values returned to the caller, exceptions, number and spacing of attempts"],
    decided="A driver opens a graph with symbolic settings and makes one query with symbolic arguments (and again with all optional ones omitted). The native functions are modelled by the C header: a call is logged with the "
    "contents of its buffers, output buffers become results of that call and callbacks are called with symbolic data. The log, the returned value and the refusal condition are compared with those of a short "
    "specification of each query; remote graphs are compared again with the retry policy around the call.",
    bounds="any sizes and values; the library's own behaviour is a symbol; numpy conversions are taken as documented",
    note="arrays of nodes, types and times are taken as one dimensional",
)
prop(
    "P13", "Servers and clients load every file of the partitions they were given",
    "Starting a server hands over each listed partition with its own place, the address, certificates, storage and loading options; stopping it releases it and removes what was fetched. "
    "When a graph lies in a remote file system, the metadata and every file of each remote partition that the graph has are fetched from that partition's own file system and the partition is loaded from the copy, "
    "while local ones stay where they are. The metadata read back has the counts, types, weights summed over partitions and time information that were stored.",
    ["inputs", "configurations"], "every list of partitions with and without places of their own, every mix of local and remote ones, every metadata content and every option",
    "Tests start no server and fetch nothing; a file missing from the list matters only for graphs with that kind of data.",
    [S + "server.py", S + "_downloader.py", S + "meta.py"],
    [("list of files of a partition", S + "_downloader.py"), ("arguments of the server", S + "server.py"), ("metadata fields", S + "meta.py")],
    [("fetched folder", "temporary copy of a remote graph", S + "_downloader.py")],
    ["files requested from the file system, arguments of the started server, metadata fields"],
    decided="Server, downloader and metadata reader are run through drivers with symbolic partitions and settings. The requested files of an arbitrary partition form a set that is compared with the files the loader opens for "
    "graphs with and without features and times; server start, stop, metadata fields and refusals are compared with specifications.",
    bounds="any number of partitions; file systems are symbols; the search for Hadoop libraries is not part of this property",
)

prop(
    "P14", "Clients pass requests on unchanged and hand back the graph's answers",
    "Every request of a graph client, for a graph in memory or on servers, asks the graph behind it exactly once for what the caller named (ids, types, counts, defaults, features, query times, strategy), "
    "with a fresh seed from the global generator where something is drawn, and hands back the answer in the documented columns. "
    "Samplers are kept and reused only for the same kind of sampling and the same types, closing releases the graph and every sampler, and a client sent to another process connects with the same options; "
    "opening a graph loads the partitions that were asked for, the first one when none are named.",
    ["inputs", "configurations", "histories"], "every request with every combination of arguments, every sequence of sampling requests, every strategy and option",
    "Tests need the native library; an argument dropped on the way shows only with a graph for which it matters.",
    [S + "local.py", S + "distributed.py"],
    [("requests", S + "local.py"), ("kept samplers", S + "local.py"), ("options of a serialized client", S + "distributed.py")],
    [("samplers", "samplers kept by kind and types", S + "local.py")],
    ["arguments of the calls to the graph, returned columns, samplers made and released"],
    decided="Each request is run through a driver with symbolic arguments; calls to the graph are logged with arguments normalised to parameter names and compared, together with the returned value and the conditions of refusal, "
    "with a specification. Samplers: sequences of two requests with equal and different types and strategies are compared.",
    bounds="any arguments; sequences of two sampling requests; weights that the graph does not deliver (uniform sampling) are not compared",
)

prop(
    "P15", "Starting a cluster: one server per host, every partition on one server",
    "Which process starts which server follows from explicit settings, else from the rank variables of the launcher (first process of each host, numbered by host), else from the list of workers (first worker of each host in sorted order); "
    "a process that finds none of these is refused. A server loads the partitions congruent to its index modulo the number of servers at the address with that index, and clients connect to all servers with the given options. "
    "When no addresses are given each process publishes its own address with its server index, and all processes use the published addresses in order of server index.",
    ["configurations", "inputs"], "every combination of settings, launcher variables and worker lists, every number of partitions and servers",
    "Tests start no cluster: each launcher sets other variables, and mistakes show with several hosts or uneven partitions only.",
    [G + "backends/snark/client.py", S + "distributed.py"],
    [("place of a process", G + "backends/snark/client.py"), ("exchange of addresses", G + "backends/snark/client.py"), ("partitions of a server", S + "distributed.py")],
    [("addresses", "files of addresses and server indexes", G + "backends/snark/client.py")],
    ["servers and clients made, their arguments and order, contents of address files"],
    decided="The backends are run through drivers, one per source of the rank; servers, clients and folders made are logged with normalised arguments and compared with a specification, as are refusals and the client handed out. "
    "What is read from address files is put together from what the same code writes to them.",
    bounds="any number of servers, workers and partitions; waiting for other processes is a separate property; server indexes are below the number of servers",
)

prop(
    "P16", "Clients wait for every server, servers wait for every client",
    "A client is built at most once, whichever threads ask for it, and only after the mark of every server of the cluster was seen; when one of them stays away for the timeout the client removes its own mark and raises a timeout. "
    "A server is built before its mark appears, and is told to stop only when no marks of clients are left or the timeout has passed. "
    "A mark that is there already is refused, and marks are removed after the client was released or the server told to stop, only by the process that made them.",
    ["schedules", "histories", "fault_sequences"], "every number of servers, every server that does not start in time, every interleaving of threads asking for the client, closing in the same or a forked process",
    "The tests start one server and one client; a missing second check or a forgotten server shows only with other threads or several servers.",
    [G + "backends/snark/synchronized.py"],
    [("waiting for servers", G + "backends/snark/synchronized.py"), ("waiting for clients", G + "backends/snark/synchronized.py"), ("lock around the client", G + "backends/snark/synchronized.py")],
    [("marks", "files of servers and clients in a shared folder", G + "backends/snark/synchronized.py")],
    ["files made and removed, conditions waited for, objects made and released"],
    decided="Effect analysis: making, releasing, marking, unmarking, waiting and telling to stop become entries of a log in program order with their conditions, compared with a specification. A loop whose state does not change is a wait for its exit condition; "
    "waiting on another thread raises a timeout under an atom of its own; whenever the lock is taken another thread may have stored a client (taking a held lock is a deadlock entry); a child process works on a copy of the state; "
    "the process id changes between making and closing. Leaving a pool of threads waits for late tasks, which have to see a flag that was changed meanwhile.",
    bounds="any number of servers; one client object and any number of threads asking for it; a mark appearing between the test for it and its creation is not considered",
)
prop(
    "P17", "Queries of several hops are put together from every hop's answer",
    "Sampled hops start from all nodes sampled by the hop before with the edge types and count of the hop, in order and flattened; full neighbourhoods list the distinct neighbours of each hop without its padding, the source row and neighbour position of every edge with its weight, true lengths and zero padding, and are refused when there is no room. "
    "Sampled out edges are rows of source, neighbour and type with the features of these rows, and a sub-graph has the edges of every node reached before the last hop, positions of the seeds, and reverse edges and self loops exactly when asked for. "
    "Skip-grams pair each position of a path with every other position in its left and right window, once, and their number is told exactly.",
    ["inputs", "configurations"], "every graph and answer of it, every number of hops, window sizes, path lengths, repeated or empty seeds, every combination of options",
    "Baseline tests do not run these queries; those in the repository use one or two hops of tiny graphs where padding, repeated nodes and unequal windows do not show.",
    [G + "multihop.py", G + "graph_ops.py"],
    [("hop by hop requests", G + "multihop.py"), ("edge tables and renumbering", G + "graph_ops.py")],
    [("table of edges", "rows filled in stretches, renumbered by position among distinct nodes", G + "graph_ops.py")],
    ["requests sent to the graph", "returned arrays"],
    decided="Value analysis: the arrays returned for any graph become terms over the answers of the graph, compared with a specification evaluated by the same analysis. Arrays are sequences and tables of columns; stores into slices, rows at a running counter, "
    "loops building a list from its last element, flattening, padding, distinct values with positions and matrix entries have one normal form however they are written (`vlib/nd.py`). Window bounds are compared as piecewise linear terms.",
    bounds="none on sizes; answers of the graph are taken to be as long as their counts say; the order in which duplicates of an undirected edge list are removed does not matter",
)
prop(
    "P18", "A data set returns the query result of every batch, fetched ahead or not",
    "Each batch of the sampler is queried once on the graph of the backend and its result is handed out; with fetching ahead the iteration ends after exactly as many results as batches, whatever order results and the announcement of the end arrive in, stays ended, and raises when a query or the fetching fails. "
    "Fetching is bounded by the queue and by slots that are always freed, a failed query closes the pool, and giving up tells the fetching thread to stop, empties the queue while waiting for it and cannot block. "
    "The sampler is made from its own parameters: the graph where one is asked for, else the option given by the caller, else the setting of the data set of that name; the backend is the one its options name.",
    ["schedules", "inputs", "fault_sequences"], "every number of batches (none too), every arrival order of results, end and failure, every sampler signature and option, stopping at any time",
    "Tests iterate fast queries to the end; an end announced before the last result, a late failure or an option that is zero never happen in them.",
    [G + "prefetch.py", G + "graph_dataset.py"],
    [("fetching thread and queue", G + "prefetch.py"), ("arguments of samplers", G + "graph_dataset.py")],
    [("count and index", "number of announced and of taken items", G + "prefetch.py")],
    ["items put in and taken from the queue", "calls of the query", "arguments of the sampler"],
    decided="Effect analysis: starting the fetching thread becomes a log of pool, queue, query, put and close entries with their gates for any list of batches, compared with a specification; tasks are analysed where they are submitted. "
    "Handing out is analysed after any number of plain results (loop in closed form) followed by an end or a failure, in both arrival orders; giving up is a wait whose loop body has to empty the queue. "
    "Arguments of samplers are a mapping built over any signature, compared as a value.",
    bounds="one fetching thread (the default); a failing sampler is only followed through the failing submission of one batch; the collate function is accepted but used nowhere",
)
prop(
    "P19", "Burned samples hold edges of the graph only and stop at the size asked for",
    "A sample of a directed graph starts from a random node and burns nodes off a stack, each at most once per fire: a random choice of its outgoing and of its incoming edges enters the sample in the direction of the graph and their other ends go on the stack, and no edge enters once the sample has the requested number of nodes. "
    "A fire that dies out starts again at any random node of the graph with no node marked as burned, and an undirected graph is refused. "
    "Statistics of a graph are the logarithm of edges to the base of nodes, the diameter and share of nodes of the largest strongly connected component, the largest eigenvalue of the adjacency matrix, each zero for a graph without nodes, and the share of trials whose random node has two random neighbours that are joined.",
    ["inputs", "histories"], "every directed graph, every size, every sequence of random draws",
    "Tests pin one sequence of random draws on one small graph; a fire that dies out, nodes with edges into them only or a choice longer than the edges there are may not occur in it.",
    [S + "preprocess/sampler/forest_fire.py", S + "preprocess/sampler/metric.py"],
    [("burning a node", S + "preprocess/sampler/forest_fire.py"), ("statistics", S + "preprocess/sampler/metric.py")],
    [("stack and burned nodes", "list of nodes to burn and set of nodes burned", S + "preprocess/sampler/forest_fire.py")],
    ["edges of the returned graph", "returned numbers"],
    decided="The loop that takes nodes off the stack is found by what it does; its start, its exit and one round of it (edges added, stack and burned nodes afterwards, in the cases nothing to burn, burned before and to burn) are compared with those of a specification as normal-form values, so every round of every run is covered by induction. "
    "The statistics are values over calls of the graph library.",
    bounds="none on graphs and sizes; draws from the same distribution are not told apart and their order is not compared; the last edge may bring two nodes; whether the loop ends on a graph with too few edges is not decided",
)
T = "src/python/deepgnn/pytorch/"
prop(
    "P20", "Training takes every batch once and goes on where its checkpoint ended",
    "Every step of training takes the next batch, clears gradients, runs the model in training mode, computes gradients, clips them when asked to, updates once and moves the learning rate; an epoch ends with its batches or after its share of the samples asked for, and training resumes with the first batch and epoch the newest checkpoint has not seen. "
    "Only the first worker writes checkpoints, with model state, epoch and step, every so many steps and epochs; the newest is the one with the highest epoch and step as numbers and just the oldest ones above the limit are removed. "
    "Evaluation, also during training, runs all batches in evaluation mode without gradients, leaves the counters of training alone and returns the metric over all of them, averaged over all workers, inference writes the embeddings of every batch, and all workers start from the state of the first one.",
    ["inputs", "configurations", "histories"], "every combination of options, every batch, resuming after any step, any number of workers, every list of checkpoints",
    "Baseline tests do not train; tests of the trainer run one epoch from the start in one process.",
    [T + "training/trainer.py", T + "training/trainer_fp16.py", T + "training/trainer_ddp.py", T + "training/trainer_hvd.py", T + "training/factory.py", T + "common/utils.py"],
    [("steps and epochs", T + "training/trainer.py"), ("order of checkpoints", T + "common/utils.py")],
    [("step and epoch", "counters kept in checkpoints", T + "training/trainer.py"), ("checkpoints", "files of a folder, numbered by epoch and step", T + "common/utils.py")],
    ["calls of model, optimizer, schedule and torch", "files written and removed", "returned metric"],
    decided="Effect analysis: training, evaluation and inference with a model and optimizer of which only the calls are known become logs of entries with their gates, compared with the log of a specification for any combination of options (base, half precision, distributed and horovod trainers; from the start, from a checkpoint, as another worker, with evaluation in between). "
    "The order of checkpoints and the removed ones are values over any list of files.",
    bounds="two or three batches and epochs stand for any number; what torch does is not looked into; apex is not covered; logged numbers are not part of the property",
)
prop(
    "P21", "Learning rates rise during warmup and fall by their schedule",
    "The factor of the learning rate at a step below the number of warmup steps is the share of warmup steps taken, and afterwards stays one, falls linearly to zero, follows the cosine of the share of the remaining steps with the cycles asked for, restarts it that many times and is zero at the end, or falls polynomially to the end rate, never below zero. "
    "Schedules belong to the optimizer given and start after the epoch given; an end rate that is not below the initial one is refused.",
    ["inputs", "configurations"], "every step, every number of warmup and training steps (also none, also more warmup than training), cycles, powers and rates",
    "No test runs the schedules; a wrong factor only changes how well a model is trained.",
    [T + "common/optimization.py"],
    [("factor at a step", T + "common/optimization.py")], [], ["factor given to the optimizer at a step"],
    decided="Value analysis: the function handed to torch is called with a step of which nothing is known but that it is not negative; the factor becomes a gated term over steps, compared with the term of a specification.",
    bounds="none; cosine and powers are not evaluated; decay with no steps between warmup and end divides by zero and is not specified",
)
prop(
    "P22", "Options given as text mean what they spell, embeddings are written row by row",
    "Flags accept yes, true, t, y, 1 and no, false, f, n, 0 in any case and refuse everything else; numbers and names separated by commas, and groups of them separated by semicolons, become lists in order without the empty groups, and values that are lists or flags already are kept. "
    "Feature types and storage names are read from names and addresses in any case, unknown types are refused, and a path that is no address is kept as it is. "
    "Vectors are written with blanks and rows with commas between them, and embeddings as one line for each row with its node first.",
    ["inputs"], "every text, list, vector of one or two dimensions and batch of embeddings",
    "Tests give a few well formed values.",
    ["src/python/deepgnn/arg_types.py", T + "common/utils.py", T + "modeling/base_model.py"],
    [("conversions", "src/python/deepgnn/arg_types.py"), ("lines of embeddings", T + "modeling/base_model.py")], [], ["returned values", "lines written"],
    decided="Value analysis: returned values and refusals become gated terms over the text and what splitting it gives, compared with those of a specification; lines written are a log over any number of rows.",
    bounds="none; how numbers are spelled is left to the language",
)
prop(
    "P23", "Ready made graphs hold each node and edge of their raw data, split as asked",
    "A ready made graph has every node of its raw data once, with its kind, features and label, followed by its neighbours in order, both ways and split into edges within the training nodes and all others; every partition that was made from it is loaded, after everything was written. "
    "Training nodes are the asked share of the nodes in order or the same random choice every time, random splits take the asked number of each class and disjoint sets for validation and test, and node files list each node in the file of its kind. "
    "Data is downloaded only when it is not there yet and read from where it was put.",
    ["inputs", "configurations"], "every raw data, ratio, split, number of partitions and output place",
    "The tests of these graphs need the network or the compiled library and look at sizes.",
    ["src/python/deepgnn/graph_engine/data/" + x for x in ("data_util.py", "cora.py", "citeseer.py", "citation.py", "ppi.py", "reddit.py")],
    [("lines and splits", "src/python/deepgnn/graph_engine/data/data_util.py"), ("edges of raw data", "src/python/deepgnn/graph_engine/data/ppi.py")], [], ["text given to the converter", "node files", "partitions opened"],
    decided="Value analysis: text of the file at the time the converter is started, node files, downloads and opened partitions become terms over any raw data and are compared with those of a specification; neighbour tables are compared step by step of the walk over edges.",
    bounds="none; contents of archives, scaling of features and the data set that is marked as out of support are not decided",
)
prop(
    "P24", "Uploaded lines reach files once and in order, none is left behind at the end",
    "Lines handed over for upload are cut in order into chunks of at most the configured number of lines, each line followed by a break, and chunks and texts go to the upload processes in turn; after the writer is closed nothing more is accepted. "
    "Every chunk a process receives is written exactly once by the thread that takes it, to a file named after process, thread and running number; a thread starts a new file after the configured number of chunks, and closes every file it opened. "
    "Closing tells each living process, and each process each of its living threads, to finish after all that was handed over before, and waits for all of them.",
    ["inputs", "configurations", "schedules"], "every number and size of lines, chunks, processes and threads, limits of chunks per file including none, threads or processes that ended early",
    "There is no test of uploading: it needs cloud storage. A lost last line or chunk only shows for particular numbers of lines and limits.",
    [G + "adl_uploader.py"],
    [("cutting into chunks and turns", G + "adl_uploader.py"), ("files of a thread", G + "adl_uploader.py"), ("end markers and waiting", G + "adl_uploader.py")],
    [("queues", "one for each process and one inside each", G + "adl_uploader.py")], ["chunks put into queues", "files opened, written and closed"],
    decided="Value analysis: an arbitrary list of lines is handed over; queues, starts, ends and waits become logs over any number of workers. The function given to a started worker is analysed on an endless stream of chunks, "
    "and the order of files opened, written and closed as a term over the stream is compared with that of a specification.",
    bounds="none on numbers; which thread takes a chunk is left open; the monitor that closes everything when a worker dies, and lines refused because a queue stays full, are not decided",
)
prop(
    "P25", "Training is fed every batch once, whichever process reads it",
    "A torch data set opens its graph and its sampler only when reading starts, in the process that reads, and gives the sampler the number of that loader process and how many there are, besides all other settings it was made with. "
    "A tensorflow data set begins anew on each pass, has the types and declared shapes of the batches, refuses batches whose count, rank or sizes differ from what is declared, and tells its length or that it has none. "
    "Training is started with one model, with data for the place of the process among all, evaluation data and optimizer if there are any, no loader processes where the engine samples by itself, one leading process that prepares the graph, and the graph is closed afterwards.",
    ["configurations", "inputs"], "every place of a loader process and of a trainer, all settings of data sets, kind of sampler and trainer, with and without evaluation data, optimizer and prefetching",
    "Neither framework is installed where the tests run; rows read twice or by nobody only show with several processes.",
    [T + "common/dataset.py", "src/python/deepgnn/tf/common/dataset.py", T + "training/factory.py"],
    [("place of the loader process", T + "common/dataset.py"), ("stream of batches", "src/python/deepgnn/tf/common/dataset.py"), ("start of training", T + "training/factory.py")], [],
    ["arguments of samplers, loaders and trainers", "stream handed to tensorflow"],
    decided="Value analysis: data sets are made and read with settings of which nothing is known, frameworks are described by what they are given; arguments of samplers, streams, loaders and trainers and the order of opening, reading and closing "
    "are terms that are compared with those of a specification.",
    bounds="batches of one or two arrays with one or two dimensions for the comparison with declared shapes, none otherwise; what frameworks do with what they are given is trusted; evaluation data uses the configured number of loader processes for every kind of sampler",
)
F = "src/python/deepgnn/tf/common/"
prop(
    "P26", "Tensorflow workers end together, and embeddings they wrote can be read back",
    "At an agreed point each worker announces itself and then waits for the announcement of every worker of the job; the first worker starts by removing announcements an earlier run has left, and the chief saves the last checkpoint only when all workers have ended. "
    "Every worker writes, for each batch and each valid node, one line with the node and its values into a file of its own, and reading such files puts each line into the row of its node and refuses rows of another size. "
    "Training saves the checkpoint that evaluation and inference load, with the data, steps, losses, metrics and callbacks they were given, and workers take their place and number from the configuration of the job.",
    ["schedules", "inputs", "configurations"], "every number of workers and order in which they end, numbers and contents of batches, files and lines, configurations of a job with or without other workers",
    "Tensorflow is not installed where the tests run, and a worker that is not waited for only shows when it is the slowest.",
    [F + "dist_sync.py", F + "hooks.py", F + "utils.py", F + "tf2_trainer.py"],
    [("announcing and waiting", F + "dist_sync.py"), ("end of sessions", F + "hooks.py"), ("lines of embeddings", F + "utils.py"), ("training, evaluation and inference", F + "tf2_trainer.py")],
    [("announcements", "a file for each worker and point", F + "dist_sync.py")], ["files written and waited for", "lines written, rows read", "calls of the model"],
    decided="Value analysis: announcements, condition each waiting loop ends with, checkpoints, calls of the model and lines written are a log over any number of workers, batches and nodes that is compared with that of a specification; "
    "values read back are a term over any files and lines.",
    bounds="none; files seen late by other machines, tensorboard summaries and log lines are not decided; it is trusted that the first worker starts before another one announces itself",
)
prop(
    "P27", "Tensorflow sessions run every batch, with one chief and weights shared by all",
    "A worker takes its place and the number of workers from its hosts or from horovod; exactly the first worker of a job is chief or has the folder of checkpoints, parameter servers only serve, and a worker alone needs no server. "
    "Training, evaluation and inference run the operations they need once for each batch of all epochs until the data ends, with losses and metrics of the caller in place of those of the model, in a session whose hooks wait for the other workers; afterwards all workers wait for each other, and inference writes one file for each worker with the lines of all outputs of each batch. "
    "With horovod the optimizer is shared and all processes start from the weights of the first one, and the trainer made is the one asked for, with all settings asked for.",
    ["configurations", "inputs", "schedules"], "every place of a worker and number of workers and machines, number of batches and epochs, with and without own losses and metrics, and all choices of a trainer",
    "Neither tensorflow nor horovod is installed where the tests run, and faults show only with several workers, machines or epochs.",
    [F + x for x in ("trainer.py", "ps_trainer.py", "horovod_trainer.py", "tf2_horovod_trainer.py", "trainer_factory.py")],
    [("sessions", F + "trainer.py"), ("place of a worker", F + "ps_trainer.py"), ("processes of horovod", F + "horovod_trainer.py"), ("choice of a trainer", F + "trainer_factory.py")], [],
    ["operations run", "settings of sessions, hooks and servers", "lines written"],
    decided="Value analysis: trainers are made and used with settings of which nothing is known; servers, sessions, hooks, operations run for each batch, waits and lines written are a log over any number of batches, compared with that of a specification. "
    "Frameworks are described by what they are given.",
    bounds="elements of the data are pairs or have names; devices, profiling, log lines and how often summaries are written are not decided; what frameworks do with what they are given is trusted",
)
