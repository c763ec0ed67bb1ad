"""Source of /verif/properties.jsonl: run `python3 tools/gen_properties.py`."""
import json
import os

PY = "src/python/deepgnn/graph_engine/"
TR = "src/python/deepgnn/pytorch/training/"
PT = "src/python/deepgnn/pytorch/"
CC = "src/cc/lib/"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                "observe_at": observe,
                "hook_needed": hook,
            },
        }
    )


prop(
    "C01",
    "Conversion keeps every node, edge, type, weight, timestamp and feature",
    "Converting a valid graph file in JSON, edge-list or TSV form produces partitions whose combined content is exactly the input: every node and every edge once, with its id, type, weight, creation and removal time, and each feature value stored under its own feature id. "
    "This does not depend on the number of partitions, on the kind of dispatcher, on threads or processes, or on how the input is split into blocks.",
    ["inputs", "configurations", "schedules"],
    "All graphs expressible in the three input formats (heterogeneous types, gaps in feature ids, dense, sparse, string and time-varying features, isolated nodes, parallel edges, extreme ids and weights), all partition counts, both dispatchers, thread and process workers.",
    "The unit tests convert a handful of fixed three-node graphs and compare a few bytes of each file; they never compare complete content for generated graphs, and every multi-worker schedule is left to chance.",
    [PY + "snark/convert.py", PY + "snark/decoders.py", PY + "snark/converter/writers.py", PY + "snark/converter/process.py", PY + "snark/dispatcher.py"],
    [
        ("BinaryWriter.add and the per-file writers keep indexes and data files in step", PY + "snark/converter/writers.py"),
        ("Decoder.decode yields the node before its edges", PY + "snark/decoders.py"),
        ("dispatchers hand every line to exactly one writer", PY + "snark/dispatcher.py"),
    ],
    ["the files in the output folder, parsed by an independent reader", "queries of the engine on the converted graph"],
)

prop(
    "C02",
    "Graph metadata agrees with the converted data",
    "After a conversion, the metadata next to the data states exactly what the data contains: node and edge totals, totals per type, number of types and features, total weight per type in every partition, and the watermark. "
    "Metadata written by several conversion workers and then merged describes the union of what the workers wrote, with each partition keeping its own number.",
    ["inputs", "configurations"],
    "All graphs, partition counts and worker counts, including workers that see no element of some type, types that appear in one partition only, more than ten workers, and graphs where some partitions stay empty.",
    "Tests look at the metadata of one or two tiny graphs; merging is tested for two workers only, where file order and partition order cannot differ.",
    [PY + "snark/convert.py", PY + "snark/meta.py", PY + "snark/meta_merger.py", PY + "snark/dispatcher.py", PY + "snark/converter/writers.py", CC + "graph/metadata.cc"],
    [
        ("writers count elements and add up weights per type", PY + "snark/converter/writers.py"),
        ("join pads per-type lists of partitions that lack a type", PY + "snark/dispatcher.py"),
        ("merge of meta_*.json files", PY + "snark/meta_merger.py"),
        ("engine side parser", CC + "graph/metadata.cc"),
    ],
    ["meta.json", "node_count and edge_count of the loaded graph", "the binary files of every partition"],
)

prop(
    "C03",
    "Text readers deliver every line exactly once and in order",
    "Iterating over text files on disk or in a data lake yields every non-empty line exactly once per epoch, byte for byte and in file order, in batches of the requested size, for any block size, buffer size, number of reader threads and line length. "
    "When the file is read by several workers the workers together see every line exactly once, and a failed read reaches the consumer as an error instead of shortening the data.",
    ["inputs", "configurations", "schedules", "fault_sequences"],
    "All files (long lines, lines that straddle blocks, multi-byte characters at block edges, missing final newline, several matching files), all block sizes, thread counts, queue sizes, worker counts and epochs, all completion orders of the read threads, any single failing read.",
    "Tests read a few small files whose blocks never split a line in an unlucky place, and they do not control the order in which reader threads finish.",
    [PY + "_adl_reader.py"],
    [
        ("block reads are reassembled in order by block number", PY + "_adl_reader.py"),
        ("worker ranges are cut at line ends", PY + "_adl_reader.py"),
    ],
    ["the batches the iterator returns"],
)

prop(
    "C04",
    "Sampling tables encode exactly the element weights",
    "The sampling tables written by a conversion contain every element of the type and encode a probability for each element equal to its weight divided by the total weight of that type in the partition. "
    "Elements of other types never appear.",
    ["inputs"],
    "All weight vectors: equal, skewed over many orders of magnitude, single element, zero weights mixed with positive ones, large tables; node and edge tables.",
    "The unit test checks a few weights by statistical sampling with wide tolerances and fixed sizes; the exact encoded distribution is never computed.",
    [PY + "snark/alias.py", PY + "snark/converter/writers.py", CC + "graph/sampler.cc"],
    [
        ("alias construction", PY + "snark/alias.py"),
        ("buffered alias writers per type", PY + "snark/converter/writers.py"),
    ],
    ["alias files decoded by an independent reader", "the generator of alias triples"],
)

prop(
    "C05",
    "Neighbor queries return exactly the graph's edges",
    "For any list of nodes and any set of edge types, the loaded graph returns for each node exactly its outgoing edges of those types with the right destination, weight and type, grouped per node in the order asked, and counts that equal the number of returned edges. "
    "Unknown nodes and unknown types yield nothing, and the node type query returns each node's type or the default for unknown nodes.",
    ["inputs", "configurations"],
    "All graphs and all node and type lists, including repeated nodes, unsorted and repeated types, gaps between the types present at a node and the requested ones, several partitions, and a subset of partitions loaded.",
    "The native library is not part of the Python tests that run here; the upstream tests use fixed graphs of three to five nodes with one or two edge types, so interleavings of present and requested types are not reached.",
    [CC + "graph/partition.cc", CC + "graph/graph.cc", CC + "py_graph.cc", PY + "snark/client.py", PY + "snark/local.py"],
    [
        ("per-node ranges of edge types with cumulative weights", CC + "graph/partition.cc"),
        ("node map from id to partitions and internal ids", CC + "graph/graph.cc"),
        ("ctypes result buffers", PY + "snark/client.py"),
    ],
    ["results of neighbors, neighbor_counts, node_types on the client API"],
)

prop(
    "C06",
    "Feature queries return the stored values",
    "Dense, sparse and string features of nodes and edges read back equal the values in the source graph, feature by feature and item by item in the order asked. "
    "A shorter requested size is a prefix, a longer one is padded with zeros, and missing items or features give zeros or empty values without disturbing their neighbours in the result.",
    ["inputs", "configurations"],
    "All feature layouts (gaps, empty features, different types per id, large values, multi-dimensional coordinates) and all requests: mixed known and unknown nodes or edges, repeated items, several features with different sizes, several partitions.",
    "Upstream tests fetch one or two features of fixed nodes; missing items between present ones, empty last features and larger-than-stored requests combined are not covered, and the native library is not exercised by the tests that run here.",
    [CC + "graph/partition.cc", CC + "graph/graph.cc", CC + "graph/storage.h", CC + "py_graph.cc", PY + "snark/client.py", PY + "snark/local.py", PY + "snark/converter/writers.py"],
    [
        ("feature offsets index", CC + "graph/partition.cc"),
        ("feature storage", CC + "graph/storage.h"),
        ("result assembly with dimensions", PY + "snark/client.py"),
    ],
    ["results of node_features, edge_features, node_sparse_features, edge_sparse_features, node_string_features, edge_string_features"],
)

prop(
    "C07",
    "Temporal queries see exactly the graph at the given time",
    "A query with a timestamp returns exactly the edges alive at that time, where an edge lives from its creation time up to but not including its removal time, and features as of the latest version created at or before that time. "
    "Neighbor lists, counts, samples and the most recently created neighbors agree with this, also for large timestamps and across partitions.",
    ["inputs", "histories"],
    "All histories of edge creation, removal and re-creation and of feature versions, all query times including boundaries, values beyond 32 bits, and per-node different times.",
    "Upstream temporal tests use a few edges with nested lifetimes; overlapping lifetimes, exact boundaries for every query kind, and large times are not reached, and the native library is not exercised by the tests that run here.",
    [CC + "graph/partition.cc", CC + "graph/graph.cc", CC + "graph/storage.h", PY + "snark/converter/writers.py", PY + "snark/decoders.py", PY + "snark/client.py"],
    [
        ("edges kept with creation and removal time", CC + "graph/partition.cc"),
        ("temporal feature container", CC + "graph/partition.cc"),
        ("timestamp writer", PY + "snark/converter/writers.py"),
    ],
    ["results of all graph queries that accept timestamps"],
)

prop(
    "C08",
    "Sampled neighbors are real neighbors of the requested kind",
    "Every neighbor returned by a sampling call is the destination of an existing edge of the node with one of the requested types (and alive at the requested time), reported with that edge's own weight, type and creation time. "
    "Default values are used exactly when there is nothing left to sample, sampling without replacement never repeats an edge and returns all edges when asked for at least that many, and the same seed gives the same result.",
    ["inputs", "configurations"],
    "All graphs, node lists, type lists, counts, strategies, seeds and timestamps, in one or several partitions.",
    "Upstream tests compare fixed seeds with recorded output for a few nodes, which says nothing about other graphs, counts or type sets.",
    [CC + "graph/partition.cc", CC + "graph/graph.cc", CC + "graph/reservoir.cc", CC + "py_graph.cc", PY + "snark/client.py", PY + "snark/local.py"],
    [
        ("weighted and uniform neighbor sampling", CC + "graph/partition.cc"),
        ("reservoirs", CC + "graph/reservoir.cc"),
        ("strategy dispatch", PY + "snark/local.py"),
    ],
    ["results of sample_neighbors for all strategies"],
)

prop(
    "C09",
    "Neighbor sampling frequencies follow the weights",
    "Over many seeds, weighted neighbor sampling picks each eligible edge in proportion to its weight and uniform sampling picks each eligible edge equally often, with and without replacement. "
    "The frequencies do not depend on how edges are divided among partitions or servers, and draws of one call with replacement are independent of each other.",
    ["inputs", "configurations"],
    "All weight vectors, degrees, type subsets, partition and server layouts.",
    "A distribution is not a property of one output: fixed-seed tests cannot see bias, and unequal splits over partitions are not tested at all.",
    [CC + "graph/partition.cc", CC + "graph/graph.cc", CC + "graph/reservoir.cc", CC + "graph/merger.h", CC + "distributed/client.cc"],
    [
        ("cumulative weights and binomial splitting", CC + "graph/partition.cc"),
        ("reservoir algorithms and merge", CC + "graph/reservoir.cc"),
    ],
    ["counts of sampled neighbors over many calls with different seeds"],
)

prop(
    "C10",
    "Storage mode and partition layout do not change answers",
    "A graph answers every query identically whether its data is held in memory or read from disk and however the same content is divided into partitions. "
    "Loading with features or time information switched off changes only answers that depend on features or times.",
    ["configurations", "inputs"],
    "All graphs and query batches, memory or disk storage, one to many partitions, partitions loaded in any order, feature or temporal loading skipped.",
    "Tests fix one storage type and layout per scenario and never compare the complete set of answers between two of them.",
    [CC + "graph/storage.h", CC + "graph/locator.cc", CC + "graph/graph.cc", CC + "graph/partition.cc", CC + "graph/metadata.cc", PY + "snark/client.py"],
    [
        ("memory and disk storage behind one interface", CC + "graph/storage.h"),
        ("file opening and seeking", CC + "graph/locator.cc"),
    ],
    ["answers of two loads of the same content"],
)

prop(
    "C11",
    "A remote graph answers like a local one",
    "A client connected to any number of servers returns the same neighbors, counts, types and features as a local graph holding the same partitions, in the same order. "
    "This holds whatever order and timing the servers' replies arrive in, however many threads and completion queues are used, and for large requests.",
    ["schedules", "configurations", "inputs"],
    "All shardings of the partitions over servers, reply orders and delays, numbers of client and server threads, request sizes, several clients at once.",
    "Tests run one or two servers on the loopback where replies nearly always arrive in request order; nothing permutes reply order or compares the complete query surface.",
    [CC + "distributed/client.cc", CC + "distributed/graph_engine.cc", CC + "distributed/graph_sampler.cc", CC + "distributed/call_data.cc", CC + "distributed/server.cc", CC + "graph/merger.h", CC + "py_graph.cc", PY + "snark/client.py", PY + "snark/distributed.py"],
    [
        ("per-shard replies merged by request offsets", CC + "distributed/client.cc"),
        ("service implementation", CC + "distributed/graph_engine.cc"),
    ],
    ["answers of the remote client next to those of the local graph", "RPC traffic at the transport boundary"],
)

prop(
    "C12",
    "A failed server call becomes an exception, never wrong data or a crash",
    "If any server fails or is unreachable while a remote call is in progress, the caller gets an exception after the configured number of attempts instead of partial or default data, and the process keeps running. "
    "A failure that goes away within the configured attempts is invisible to the caller, and later calls on the same client work normally.",
    ["fault_sequences", "configurations"],
    "Each remote operation, failing on any one or several servers at any call, transient and permanent failures, retry settings.",
    "Tests never make a server fail in the middle of a call: they have no way to inject a failed reply.",
    [CC + "py_graph.cc", CC + "distributed/client.cc", CC + "distributed/call_data.cc", PY + "snark/client.py", PY + "snark/distributed.py"],
    [
        ("status of each reply checked and raised", CC + "distributed/client.cc"),
        ("C API returns an error code", CC + "py_graph.cc"),
        ("retry wrapper around the calls", PY + "snark/client.py"),
    ],
    ["outcome of each client call under injected status codes", "survival of the process"],
)

prop(
    "C13",
    "Library calls are memory safe",
    "No sequence of calls through the public graph interface reads or writes outside its buffers, uses freed memory or executes undefined arithmetic, whatever the sizes and values of the arguments: empty lists, unknown nodes, unknown types, duplicate items, zero counts, features of size zero or another kind, features or times that were not loaded. "
    "Calls with nothing to return succeed and return nothing, and no returned element is left unwritten. "
    "Arguments that do not fit together, such as fewer timestamps than nodes, are refused with an exception.",
    ["inputs", "configurations"],
    "All graphs the converter can produce and all argument combinations accepted by the interface, local and remote.",
    "Memory errors are silent in an ordinary run; the tests are not run under sanitizers and do not pass degenerate arguments.",
    [CC + "py_graph.cc", CC + "graph/graph.cc", CC + "graph/partition.cc", CC + "graph/storage.h", CC + "graph/sampler.cc", CC + "distributed/client.cc", CC + "distributed/graph_engine.cc", PY + "snark/client.py"],
    [
        ("span based interfaces and size checks", CC + "graph/partition.cc"),
        ("output buffers allocated by the caller", PY + "snark/client.py"),
    ],
    ["address and undefined-behaviour sanitizer reports", "exit status of the process", "shapes and contents of returned arrays when all new memory is filled with a pattern", "exceptions lost inside callbacks"],
)

prop(
    "C14",
    "A graph can be used from many threads at once",
    "Concurrent calls on one graph, one sampler or one remote client from several threads are free of data races and each call returns what it would return alone. "
    "Creating and destroying clients while other threads use theirs is safe.",
    ["schedules"],
    "All interleavings of queries, sampling calls and client creation or release by several threads, local and remote.",
    "The tests are single threaded.",
    [CC + "graph/graph.cc", CC + "graph/partition.cc", CC + "graph/sampler.cc", CC + "distributed/client.cc", CC + "distributed/graph_sampler.cc", CC + "distributed/server.cc", CC + "py_graph.cc", PY + "snark/_lib.py", PY + "snark/client.py"],
    [
        ("sampler registries under locks", CC + "distributed/graph_sampler.cc"),
        ("completion queues and promises", CC + "distributed/client.cc"),
    ],
    ["thread sanitizer reports", "answers compared with the single threaded ones"],
)

prop(
    "C15",
    "Node and edge samplers return existing elements with the right frequencies",
    "Sampling nodes or edges of a set of types returns only existing elements of those types, each with frequency proportional to its weight for weighted sampling and equal for uniform sampling, over all partitions and servers together. "
    "Sampling without replacement returns no element twice and can return every element, and the same seed gives the same sequence.",
    ["inputs", "configurations"],
    "All graphs, type sets, sample sizes, strategies, seeds, partitions and server counts.",
    "Tests check a few fixed seeds on tiny graphs; frequencies over several partitions with unequal weights are not examined.",
    [CC + "graph/sampler.cc", CC + "distributed/graph_sampler.cc", CC + "distributed/client.cc", CC + "py_graph.cc", PY + "snark/client.py", PY + "snark/local.py"],
    [
        ("choice of type and partition by cumulative weight", CC + "graph/sampler.cc"),
        ("choice of server by weight", CC + "distributed/client.cc"),
        ("sampler cache per types and strategy", PY + "snark/local.py"),
    ],
    ["results of sample_nodes and sample_edges"],
)

prop(
    "C16",
    "Random walks follow edges with the configured bias",
    "Every step of a random walk goes along an existing edge of a requested type; the walk starts at the given node, has the requested length and stays at the default node once a node has nowhere to go. "
    "Step frequencies follow edge weights, scaled by the return and in-out parameters.",
    ["inputs"],
    "All graphs, start lists, lengths, return and in-out parameters and seeds, local and remote.",
    "Tests use fixed seeds or aggregate checks on one small graph and cannot show that every step is an edge.",
    [CC + "py_graph.cc", PY + "snark/client.py", PY + "snark/local.py"],
    [("walk loop over sorted neighbor lists", CC + "py_graph.cc")],
    ["walks returned by random_walk"],
)

prop(
    "C17",
    "Personalized PageRank neighbors are accurate",
    "The neighbors and scores returned for personalized PageRank approximate the true values on the subgraph of the requested edge types within the error the threshold parameter allows. "
    "The result has the requested number of entries per node, only reachable nodes, best scores last, and default values as filler.",
    ["inputs"],
    "All graphs, start nodes, counts, teleport and threshold parameters, with and without timestamps.",
    "The only test uses a fixed graph and recorded output.",
    [CC + "py_graph.cc", PY + "snark/client.py"],
    [("approximate push with per-node residuals", CC + "py_graph.cc")],
    ["results of ppr neighbor sampling, compared with power iteration"],
)

prop(
    "C18",
    "Batch samplers visit every element exactly once per epoch",
    "Iterating an epoch of any of the data samplers delivers each element of its source exactly once over all workers and data-parallel shards together, in batches of the requested size, apart from the documented padding, backfilling and dropped remainder. "
    "The reported length equals the number of batches an unsharded iteration yields, and each new iteration starts a fresh epoch.",
    ["configurations", "inputs"],
    "All data sizes including zero and sizes not divisible by the batch, worker and shard counts, batch sizes, epochs, shuffling, padding and drop-last settings.",
    "Tests cover a handful of sizes that divide evenly, with one or two workers.",
    [PY + "samplers.py", PY + "graph_dataset.py"],
    [
        ("ranges cut by worker and shard index", PY + "samplers.py"),
        ("padding and drop-last handling", PY + "samplers.py"),
    ],
    ["batches returned by the samplers"],
)

prop(
    "C19",
    "Prefetching delivers the same batches as direct iteration",
    "Reading a dataset with prefetching yields exactly the batches direct iteration yields, each once (and in order when one thread prepares them), then ends; it never hangs, loses a batch or returns an internal marker. "
    "An exception raised while a batch is produced reaches the consumer, and worker threads end when the consumer is done.",
    ["schedules", "fault_sequences", "configurations"],
    "All batch counts including zero, queue sizes, worker counts, speeds of producer and consumer, exceptions at any batch, early abandonment.",
    "The tests run a few batches with one queue size and no failures, so races between workers, end of data and exceptions are not reached.",
    [PY + "prefetch.py", PY + "graph_dataset.py"],
    [
        ("bounded queue between sampling workers and consumer", PY + "prefetch.py"),
        ("end marker with the number of produced batches", PY + "prefetch.py"),
    ],
    ["items returned by the iterator", "threads alive afterwards", "time without progress"],
)

prop(
    "C20",
    "Clients start after all servers and servers outlive clients",
    "With file based synchronization no client is created before every server has announced itself, and no server stops while a client is registered, until the timeout. "
    "Each announcement is made after its server is ready and is withdrawn on shutdown, repeated shutdown is harmless, and a failed or late party leads to an error instead of a hang.",
    ["schedules", "fault_sequences"],
    "All orders of starting and stopping of any number of servers and clients, crashes before or after announcing, stale files from earlier runs, timeouts.",
    "Tests start two servers and clients in a fixed order; sequences with early exits, repeated resets or timeouts are not covered.",
    [PY + "backends/snark/synchronized.py"],
    [
        ("lock file per server and per client", PY + "backends/snark/synchronized.py"),
        ("polling with timeout", PY + "backends/snark/synchronized.py"),
    ],
    ["order of creation and deletion events of servers, clients and files"],
)

prop(
    "C21",
    "Distributed setup serves every partition exactly once and ranks are unique",
    "For any number of partitions, servers and workers the distributed setup assigns every partition to exactly one server, every worker a distinct client rank and every server a distinct index, and all workers agree on the ordered list of server addresses. "
    "The caller's lists of servers and workers are left as they were.",
    ["configurations"],
    "All partition, server and worker counts, explicit server lists and addresses published through a shared folder, host environment variables of the supported launchers.",
    "Tests check a few fixed host lists with matching counts.",
    [PY + "backends/snark/client.py", PY + "backends/options.py", PY + "snark/distributed.py", PY + "snark/server.py"],
    [
        ("partition striding over server indexes", PY + "snark/distributed.py"),
        ("rank and index extraction", PY + "backends/snark/client.py"),
        ("address exchange files", PY + "backends/snark/client.py"),
    ],
    ["arguments of server and client construction", "files in the shared folder"],
)

prop(
    "C22",
    "Multi-hop and subgraph helpers agree with the graph",
    "Multi-hop sampling returns for each hop the sampled neighbors of the previous hop with matching shapes, weights and types; multi-hop neighbor lookup and subgraph extraction return exactly the nodes and edges that exist between the listed nodes. "
    "Skip-gram generation pairs every node of a walk with exactly the nodes inside the requested left and right windows.",
    ["inputs"],
    "All graphs, seeds lists, hop counts, fanouts, window sizes, walk lengths and padding values.",
    "Tests use one fixed graph and symmetric windows.",
    [PY + "multihop.py", PY + "graph_ops.py"],
    [
        ("fanout loops", PY + "multihop.py"),
        ("adjacency construction and window slicing", PY + "graph_ops.py"),
    ],
    ["return values, with every call to the graph recorded"],
)

prop(
    "C23",
    "A graph loaded from a remote file system equals the original",
    "Loading partitions through a remote file system fetches every file the engine needs for the requested partitions, so the loaded graph answers all queries, including temporal and sampling ones, exactly as if loaded from a local copy. "
    "Downloaded copies are removed on release and local paths are used in place and never removed.",
    ["configurations", "inputs"],
    "All graphs with or without features, time information and sampling tables, any subset of partitions, partitions spread over several locations.",
    "Tests check file names for one fixed graph on mocked file systems and do not load the result.",
    [PY + "snark/_downloader.py", PY + "snark/meta.py", PY + "_base.py", PY + "snark/client.py", PY + "snark/server.py"],
    [
        ("list of files per partition", PY + "snark/_downloader.py"),
        ("path patterns", PY + "snark/meta.py"),
    ],
    ["the downloaded folder", "answers of the graph loaded through a remote file system"],
)

prop(
    "C24",
    "Servers and clients start, stop and restart cleanly",
    "Servers and clients can be created and released in any order any number of times without crash, hang or leak, and servers can be stopped while requests of clients are in flight. "
    "A call that runs while its server shuts down either returns correct data or fails with an exception, and a new server on the same address serves clients made before and after; samplers made on the old server fail instead of drawing something else.",
    ["schedules", "histories"],
    "All sequences and interleavings of server start, server stop, client creation, calls and client release.",
    "Tests stop servers only after all calls have finished and never restart one.",
    [CC + "distributed/server.cc", CC + "distributed/call_data.cc", CC + "distributed/client.cc", CC + "py_server.cc", CC + "py_graph.cc", PY + "snark/server.py", PY + "snark/client.py"],
    [
        ("queue draining on shutdown", CC + "distributed/server.cc"),
        ("reply threads joined on client release", CC + "distributed/client.cc"),
        ("global maps of graphs and servers", CC + "py_graph.cc"),
    ],
    ["outcome of each call", "process exit status and sanitizer reports", "open files and threads afterwards"],
)

prop(
    "C25",
    "Graph down-sampling keeps a faithful piece of the graph",
    "Down-sampling a graph returns distinct nodes of the input graph, as many as requested (or all when fewer exist), and terminates on every graph, also disconnected ones. "
    "The sample spreads along edges, so on a path or cycle it is one connected piece. "
    "The reported graph metrics equal their definitions on the given graph.",
    ["inputs"],
    "All directed input graphs (disconnected, with isolated nodes, loops or parallel edges, arbitrary node names), sample sizes and seeds.",
    "Tests use two connected graphs and compare with loose tolerances.",
    [PY + "snark/preprocess/sampler/forest_fire.py", PY + "snark/preprocess/sampler/metric.py"],
    [
        ("burning process with restarts", PY + "snark/preprocess/sampler/forest_fire.py"),
        ("metric estimators", PY + "snark/preprocess/sampler/metric.py"),
    ],
    ["sampled node lists", "metric values compared with independent formulas"],
)

prop(
    "C26",
    "Uploaded result files contain every written record once",
    "Everything written through the parallel uploader before it is closed appears exactly once, unchanged and with chunks intact, in the uploaded files once it is closed. "
    "File size limits are respected, and a write that could not be queued is reported rather than silently dropped.",
    ["schedules", "configurations", "fault_sequences"],
    "All chunk sizes, record counts, process, thread and queue settings, slow or failing storage.",
    "There are no tests: the uploader needs a cloud account.",
    [PY + "adl_uploader.py"],
    [
        ("queues from writer to processes to threads", PY + "adl_uploader.py"),
        ("end markers on close", PY + "adl_uploader.py"),
    ],
    ["files created in a stand-in storage"],
)

prop(
    "C27",
    "Connection settings reach the transport",
    "Certificates, keys, host name overrides, channel options, thread counts given to servers and clients are the ones used for the connection, and a client with encryption settings never falls back to plain text. "
    "Messages larger than the transport's default limit are accepted in both directions.",
    ["configurations", "inputs"],
    "All combinations of encryption settings on client and server, channel options and message sizes.",
    "Tests use insecure loopback connections and small messages.",
    [CC + "py_server.cc", CC + "py_graph.cc", CC + "distributed/server.cc", CC + "distributed/client.cc", PY + "snark/client.py", PY + "snark/server.py", PY + "snark/distributed.py", PY + "backends/snark/client.py"],
    [
        ("credentials and channel arguments", CC + "py_graph.cc"),
        ("server builder options", CC + "distributed/server.cc"),
    ],
    ["credentials, options and sizes seen by the transport"],
)

prop(
    "C28",
    "Dataset builders reproduce their source data",
    "Building one of the bundled datasets yields a graph in which every node of the source files has its feature vector, label and type, and every link is an edge between the right nodes, with the train and test node lists disjoint and complete. "
    "The requested number of partitions and the output folder are honoured.",
    ["inputs", "configurations"],
    "All source archives in the supported layout, train ratios, random or ordered selection, partition counts.",
    "Tests only check node counts of the downloaded archives.",
    [PY + "data/data_util.py", PY + "data/cora.py", PY + "data/citeseer.py", PY + "data/citation.py", PY + "data/ppi.py", PY + "data/reddit.py"],
    [
        ("raw file loaders", PY + "data/cora.py"),
        ("edge list writer", PY + "data/data_util.py"),
    ],
    ["the graph read back through the engine", "train and test node files"],
)

prop(
    "C29",
    "Interrupted training resumes where it was stored and covers all data",
    "A PyTorch training job stopped at any moment and started again continues at the newest completely stored checkpoint, in all ranks with the same parameters, and processes exactly the batches that were left, in order, so that it ends with the parameters of an uninterrupted job; no more work is lost than the configured saving interval and only the configured number of newest checkpoints is kept. "
    "Every epoch, evaluation during training, evaluation and inference run processes each sample once over all ranks and data loading workers, up to the configured number of samples, and evaluation never changes the model. "
    "Metrics, embeddings, losses and learning rates are those of the processed batches.",
    ["crash_points", "histories", "configurations"],
    "All interruption points and sequences of interruptions, saving intervals and limits, numbers of ranks, workers, epochs and steps, single, data parallel and horovod trainers, full and mixed precision.",
    "The tests of trainers train for a few steps without interruption; none stops a job inside of a save or runs enough steps to reach long file names.",
    [TR + "trainer.py", TR + "trainer_fp16.py", TR + "trainer_ddp.py", TR + "trainer_hvd.py", TR + "factory.py", "src/python/deepgnn/pytorch/common/utils.py", "src/python/deepgnn/pytorch/common/dataset.py", "src/python/deepgnn/pytorch/common/optimization.py", "src/python/deepgnn/pytorch/modeling/base_model.py"],
    [
        ("checkpoint save and load", TR + "trainer.py"),
        ("order and rotation of checkpoints", "src/python/deepgnn/pytorch/common/utils.py"),
        ("skipping of trained steps", TR + "trainer.py"),
        ("broadcast of loaded parameters", TR + "trainer_ddp.py"),
        ("shards of workers", "src/python/deepgnn/pytorch/common/dataset.py"),
    ],
    ["batches and parameters seen by the model", "files in the checkpoint folder", "returned metrics and written embeddings"],
    state=["checkpoint files", "epoch and step of the trainer", "model parameters"],
)

prop(
    "C30",
    "Client objects answer every method like the graph they load",
    "A local, remote, backend-created or unpickled client returns for every method exactly what the partitions given to it contain, for every sampling strategy, accepted form of a type argument and default value. "
    "Samples depend only on the state of the random module, so setting it again repeats them and not setting it gives fresh ones.",
    ["inputs", "configurations", "histories"],
    "All graphs, partition lists, client forms, methods, strategies, type arguments as number or array of any shape, default arguments and call sequences.",
    "Tests call a few methods with default arguments on one client that loads all partitions.",
    [PY + "snark/local.py", PY + "snark/distributed.py", PY + "backends/snark/client.py", PY + "graph_dataset.py"],
    [
        ("translation of strategies and defaults", PY + "snark/local.py"),
        ("cache of samplers by strategy and types", PY + "snark/local.py"),
        ("restoring a pickled client", PY + "snark/distributed.py"),
    ],
    ["results of all methods of client objects"],
)

prop(
    "C31",
    "Command line tools do what their arguments say",
    "The conversion, metadata merging and server tools, run with any valid command line, leave the files or serve the data that the arguments ask for: partitions, workers, input form, tables left out or kept, storage, features and times left out, and port. "
    "A server tool serves until it is interrupted and then stops; a program's graph arguments open the graph they name and refuse values that are not documented, and lists, booleans and vectors written as text are read back unchanged.",
    ["configurations", "inputs"],
    "All combinations and spellings of documented arguments of the tools and all graphs they are applied to.",
    "Tests call the classes behind the tools with arguments of the right type and never start the tools; a wrong conversion of one argument shows only in the produced files or answers.",
    [PY + "snark/convert.py", PY + "snark/server.py", PY + "snark/meta_merger.py", PY + "utils.py", PY + "backends/options.py", PY + "snark/converter/options.py", "src/python/deepgnn/arg_types.py"],
    [
        ("arguments of the conversion tool", PY + "snark/convert.py"),
        ("arguments of the server tool", PY + "snark/server.py"),
        ("arguments of programs using a graph", PY + "utils.py"),
        ("conversion of argument text", "src/python/deepgnn/arg_types.py"),
    ],
    ["files written by the tools", "answers of the started server", "answers of the opened graph"],
)

prop(
    "C32",
    "Records of one node in several partitions act as one",
    "Features of a node whose records lie in several partitions or on several servers are those of all its records together, each under its own feature number. "
    "Of a feature with versions, the newest version that is not later than the asked time is returned, also when it is empty. "
    "The answer depends neither on the record that holds a feature, nor on the order of partitions, servers and replies.",
    ["inputs", "configurations", "schedules"],
    "All distributions of the features and versions of nodes over partitions and servers, feature kinds, element types, asked times and arrival orders of replies.",
    "Tests store a node in one partition; that one record hides features or versions of another depends on the distribution and on which reply arrives last.",
    [CC + "graph/partition.cc", CC + "graph/graph.cc", CC + "graph/merger.h", CC + "distributed/graph_engine.cc", CC + "distributed/client.cc"],
    [
        ("choice of the newest version among records of one process", CC + "graph/partition.cc"),
        ("merging of sparse and string features of several servers", CC + "graph/merger.h"),
        ("merging of dense features of several servers", CC + "distributed/client.cc"),
        ("times of found versions in replies", CC + "distributed/graph_engine.cc"),
    ],
    ["values, dimensions and coordinates returned by feature queries"],
)

prop(
    "C33",
    "Embeddings and model inputs belong to their own nodes",
    "What a model gets for a node of a batch are the features of that node and of its own sampled neighbours, through every layer and for repeated nodes, and the tokens of its own text, also when the text is cut or not plain. "
    "The embedding, loss, prediction and output line of a node do not depend on the other nodes of the batch, and a batch may have a single node. "
    "Scores reported for batches equal their definitions, and encoders that start from saved weights embed like the saved ones.",
    ["inputs", "configurations"],
    "All batches with repeated and lonely nodes, neighbour counts per layer, feature shapes, texts and lengths, encoder settings and batch sizes.",
    "Tests of encoders need torch and compare a few fixed batches with recorded numbers, so a mixed up row shows only for other counts, shapes, texts or batch sizes.",
    [PT + "encoding/gnn_encoder_sage.py", PT + "encoding/feature_encoder.py", PT + "encoding/gnn_encoder_lgcl.py", PT + "encoding/gnn_encoder_hetgnn.py", PT + "encoding/gnn_encoder_lightgcn.py", PT + "encoding/gnn_encoder_gat.py", PT + "encoding/twinbert/tokenization.py", PT + "encoding/twinbert/encoder.py", PT + "nn/gat_conv.py", PT + "modeling/base_model.py", PT + "common/metrics.py", PT + "common/aggregators.py"],
    [
        ("pairing of nodes with features of their neighbours", PT + "encoding/gnn_encoder_sage.py"),
        ("tokens of text features", PT + "encoding/feature_encoder.py"),
        ("grouping of neighbours by node", PT + "encoding/gnn_encoder_lgcl.py"),
        ("labels and embeddings of a batch", PT + "modeling/base_model.py"),
        ("ranks and rates", PT + "common/metrics.py"),
    ],
    ["data returned by queries of encoders", "outputs of encoders, models and metrics"],
)

TF = "src/python/deepgnn/tf/"

prop(
    "C34",
    "Workers of TensorFlow jobs meet, share data and save complete results",
    "Workers of a job continue from a meeting point only after all of them reached it, whatever files an earlier run left, and none of them waits forever. "
    "In every pass over the data each batch is used by exactly one worker, the last checkpoint holds every training step and only the first worker writes checkpoints. "
    "Inference and evaluation use the weights of this checkpoint, and the files of embeddings hold each node once with the values of its own embedding, which can be read back.",
    ["schedules", "configurations", "inputs", "histories"],
    "All interleavings of workers with late ones, all trainers selected by command line options, numbers of workers, batch sizes and epochs, left-over files, folder names and embeddings.",
    "Tests need tensorflow and run one worker, so a lost wait, a batch used twice or a checkpoint that misses the last steps of slower workers shows only with several workers in certain orders.",
    [TF + "common/dist_sync.py", TF + "common/hooks.py", TF + "common/trainer.py", TF + "common/ps_trainer.py", TF + "common/horovod_trainer.py", TF + "common/tf2_trainer.py", TF + "common/utils.py", TF + "common/dataset.py", PY + "graph_dataset.py"],
    [
        ("meeting point of workers", TF + "common/dist_sync.py"),
        ("checkpoint after the last worker", TF + "common/hooks.py"),
        ("training, inference and evaluation", TF + "common/trainer.py"),
        ("files of embeddings", TF + "common/utils.py"),
    ],
    ["batches consumed by workers", "checkpoints and files of embeddings in the model folder"],
)

prop(
    "C35",
    "TensorFlow layers compute a node from itself and its own neighbours",
    "What a TensorFlow layer or encoder computes for a node depends on this node and all of its own neighbours, and not on other nodes of the batch, their order or the form of the graph: sparse and dense adjacency give the same result, with edge weights. "
    "Outside of training, layers with a switch for it are deterministic, and every option they accept works. "
    "Losses and accuracies over a part of the nodes equal their definitions on this part.",
    ["inputs", "configurations"],
    "All batches, trees of sampled neighbours with any counts per hop, directed and weighted graphs with lonely nodes, layer options and masks.",
    "Tests of these layers need tensorflow and compare whole models after training, so rows mixed up for other counts, an ignored weight or a failing option goes unnoticed.",
    [TF + "nn/sage_conv.py", TF + "nn/gcn_conv.py", TF + "nn/gat_conv.py", TF + "nn/metrics.py", TF + "encoders/att_encoder.py", TF + "encoders/han_encoder.py", TF + "layers/base.py", TF + "layers/attention_header.py"],
    [
        ("neighbours grouped by node", TF + "nn/sage_conv.py"),
        ("normalized adjacency", TF + "nn/gcn_conv.py"),
        ("attention over neighbours", TF + "nn/gat_conv.py"),
        ("metapaths", TF + "encoders/han_encoder.py"),
    ],
    ["outputs of layers, encoders and metrics"],
)

prop(
    "C36",
    "Graphs streamed from remote storage equal graphs read from disk",
    "A graph or server that streams its files from HDFS or another remote storage answers every query and draws the same samples as one that reads the same files from disk, in whatever pieces the storage returns them, wherever each partition is stored and whatever else is loaded at the same time. "
    "It connects to the host and port in the address of the graph. "
    "Nothing remains open or in the folder for temporary files, and streaming to disk is refused.",
    ["inputs", "configurations", "schedules", "fault_sequences"],
    "All graphs with features, types and times, locations with any folder names, partitions spread over several places, short reads, listing orders and graphs loaded at once.",
    "Tests stream one small graph from a local cluster that is not available on most machines; real storage returns short reads and other folder names, and jobs on a machine share temporary files.",
    [CC + "graph/hdfs_wrap.cc", CC + "graph/storage.h", CC + "graph/metadata.cc", CC + "graph/graph.cc", CC + "graph/partition.cc", CC + "graph/sampler.cc", CC + "distributed/graph_engine.cc", PY + "snark/meta.py", PY + "snark/client.py", PY + "snark/server.py"],
    [
        ("reading of remote files", CC + "graph/hdfs_wrap.cc"),
        ("buffered streams", CC + "graph/storage.h"),
        ("settings of a remote graph", CC + "graph/metadata.cc"),
        ("search for files of a partition", CC + "graph/graph.cc"),
    ],
    ["answers of queries and samplers", "calls of the storage library", "folder for temporary files"],
)

prop(
    "C37",
    "Learning rates follow the requested schedule at every step",
    "At every training step each group of parameters has its own initial learning rate scaled by the requested schedule: constant, or growing evenly during warmup and then constant, falling evenly, falling with a cosine wave with or without restarts, or by a power down to the final rate. "
    "Rates are never negative, and every combination of lengths that is accepted works to the end of training. "
    "Stopping and resuming at any step continues with the rates of a run without interruption.",
    ["inputs", "configurations", "histories"],
    "All schedules, warmup and training lengths including none and equal ones, groups with different rates, powers, numbers of waves and steps at which training stops and resumes.",
    "Tests need torch and use no schedule, so a wrong rate at the end of warmup, at a restart or after resuming changes only how well a model learns.",
    [PT + "common/optimization.py"],
    [("factors of schedules", PT + "common/optimization.py")],
    ["learning rates of the optimizer after each step"],
)

prop(
    "C38",
    "Telemetry leaves the machine only on request and arrives complete",
    "Training events are sent to the monitoring service only while telemetry is switched on and a service is configured, and then each arrives once with its own type, user, job, worker, number of workers, mode, model and platform; ordinary messages are never sent. "
    "Every message of level info or above appears once on the console, also when several threads use the logger for the first time at once. "
    "A program with its own kind of loggers keeps its own handlers and levels.",
    ["inputs", "configurations", "schedules", "histories"],
    "All programs that log plain messages, exceptions and events from threads, before and after switching telemetry on or off, with and without a service and handlers of their own.",
    "Tests never configure a service and log from one thread, so a filter that lets messages out or a handler added twice is not seen by them.",
    ["src/python/deepgnn/logging_utils.py", "src/python/deepgnn/log_consts.py", TR + "trainer.py"],
    [
        ("choice of records that may leave", "src/python/deepgnn/logging_utils.py"),
        ("first use of the logger", "src/python/deepgnn/logging_utils.py"),
    ],
    ["records posted to the monitoring service", "lines on the console"],
)


if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
