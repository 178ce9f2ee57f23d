prop("C03", "A process death loses no acknowledged document",
     "Whatever the moment at which the process dies during a create or an add, a new process opening the same account finds every document that was acknowledged before, unchanged and by every way of access, and can add and search. An operation that had not begun to publish its result leaves no trace, and an operation that was acknowledged is completely there.",
     ["crash_points", "histories"],
     "every prefix of the block-store writes of the interrupted operation, after every history of earlier operations",
     "no existing test restarts the process, let alone at a chosen write",
     [DOC, "pkg/hnsw/insert.go"],
     [("order of index flush and feed publication", DOC + " AddDocuments, CreateCollection"), ("count stored before the nodes", "pkg/hnsw/insert.go Flush")],
     ["CreateCollection", "AddDocuments", "GetDocument", "GetNearDocumentsByVector", "block-store writes"],
     check=("exhaustive crash-point enumeration over the recorded block-store writes of the real client", "fault_enumeration", "every write of the last operation of all histories of up to 2 operations; recovery by a new client over the store prefix; the window inside one commit's feed updates (dependency) is a known finding"))

prop("C04", "A store failure never gives a wrong answer or harms stored documents",
     "When block-store requests fail during a search, lookup, listing or add, the operation either returns an error or the right result. An add that returned an error leaves every earlier acknowledged document unchanged and retrievable, in the same process and after a restart, and once the store works again further adds, including the same one, succeed and are complete.",
     ["fault_sequences", "histories"],
     "every single failing store call and every outage beginning at any store call of every operation, after every history",
     "the existing tests use a store that never fails",
     [DOC, "pkg/hnsw/index.go", "pkg/hnsw/insert.go", "pkg/hnsw/search.go", "pkg/hnsw/neighbor_connections.go"],
     [("error propagation from the node store", "pkg/hnsw/index.go nodeByIDOrErr, readKey"), ("ids never reused after a failed add", DOC + " AddDocuments nextIDs")],
     ["AddDocuments", "GetNearDocuments*", "GetDocument", "GetCollections", "block-store calls"],
     check=("exhaustive fault enumeration: every store call of every operation fails, on the real client", "fault_enumeration", "single faults and outages at every store call of 6 reads and 5 adds after up to 7 histories; three known findings in the dependency"))


prop("C06", "Collections are created, listed, deleted and kept apart faithfully",
     "The collection listing shows exactly the collections of the opened pod that were created and not deleted. A deleted collection takes all its documents with it, also when a collection of the same name is created again; a created collection is usable at once and accepts its documents. Operations on one collection or pod never change what another contains, creating a collection that exists does not harm it, and using one that does not exist is an error. All of it holds in the process that did it and after a restart.",
     ["histories", "restart_points"],
     "every sequence of create, delete, recreate, add, replace, search, restart and change of pod on several collections",
     "existing tests create each collection once and never delete, recreate or reopen it",
     [DOC],
     [("caches of opened collections", DOC + " OpenPod, DeleteCollection, getCollection"), ("both halves (documents, vectors) created and deleted together", DOC + " CreateCollection, DeleteCollection")],
     ["CreateCollection", "DeleteCollection", "GetCollections", "OpenPod", "AddDocuments", "GetDocument", "GetNearDocuments*"],
     check=("exhaustive exploration of all collection life-cycle histories up to a depth on the real client, against a reference model", "exploration", "all sequences of up to 3 of 12 operations and of 4-5 of the 4 life-cycle operations next to a filled collection, with a restart at every place"))

prop("C05", "Concurrent requests behave as if they ran one after the other",
     "Whatever the interleaving of requests to one server: reads running during an add, replacement, create or delete see each document either before or after its change, never half of it, never neither version, and never fail because of it. Writes running at the same time leave the collections and documents of one of their orders, with every acknowledged document complete, in the process and after a restart. No interleaving blocks forever, and no two requests ever access the same memory, one of them writing, without synchronisation between them.",
     ["interleavings"],
     "every pair of requests and every point at which one of them is preempted by the other, on a warm and on a freshly started process",
     "the existing tests issue one request at a time; the race detector only sees the schedules that happen",
     [DOC, "pkg/hnsw/index.go", "pkg/hnsw/insert.go", "pkg/hnsw/neighbor_connections.go"],
     [("locks of the client", DOC + " addLock, openLock, docLock"), ("opening a collection exactly once", DOC + " openCollection"), ("locks of graph nodes", "pkg/hnsw/vertex.go")],
     ["AddDocuments", "CreateCollection", "DeleteCollection", "GetCollections", "GetDocument", "GetNearDocuments*"],
     check=("stateless exploration of the real client: a controlled scheduler preempts one request at every lock operation and store call", "exploration", "all pairs of 13 requests with a write, one preemption at every lock operation and store write and at both ends of every run of store reads (thorough: at every point, and a second preemption at every store call); happens-before race detection over all 169 ordered pairs, warm and fresh, the second request beginning after the first or at 7 points (thorough: every point) on its way"))

prop("C07", "Invalid requests are refused without a trace",
     "A request the client cannot serve is an error, never a crash and never silently accepted: documents without an id or properties, with a vector that is not a list of finite numbers of the collection's dimension, with text that is not text, with fields that do not fit their index or cannot be encoded; searches with a negative limit or an unusable vector; unknown collections and documents; requests before login or without an open pod, and pods that cannot be opened. If one document of a batch is refused, none of the batch is added. Nothing of a refused request remains, and later valid requests work, in the process and after a restart.",
     ["inputs", "histories"],
     "every invalid document alone and at every place of a batch, every invalid search, lookup or order of operations, after every kind of history",
     "the existing tests only make valid requests",
     [DOC, "pkg/hnsw/insert.go", "pkg/hnsw/search_with_max_dist.go"],
     [("validation of a whole batch before any of it is stored", DOC + " validateDocuments"), ("vector validation", "pkg/hnsw/insert.go ValidateBeforeInsert")],
     ["AddDocuments", "CreateCollection", "GetDocument", "GetNearDocuments*", "Login", "OpenPod"],
     check=("exhaustive exploration of an alphabet of invalid requests x batch position x history on the real client, against a reference model", "exploration", "56 bad documents x 4 places x 4 histories, 50 bad searches and lookups, 10 unusable vectors, 8 requests in 4 stages before the pod is open, 7 pods and accounts that cannot be opened, vectors of 8 sizes with a non-number at every component and 9 other lengths, 26 kinds of value x 4 index types x 4 histories"))

prop("C09", "The HTTP API is a faithful view of the collections",
     "Every request over HTTP has the effect and the answer that the documentation promises: creating, listing and deleting collections, adding, replacing, fetching and searching documents give the same collections, documents, distances and order as performed; property values come back exactly as they were sent, numbers included. Malformed, incomplete or wrongly typed requests get a 4xx answer, never a 5xx, a crash or a partial effect. Requests served at the same time share no memory without synchronisation. The settings of the environment reach the store, the account, the pod and the vectorizer they name.",
     ["inputs", "histories", "configurations"],
     "every sequence of requests, every field of every request with every JSON value, every property value, every set of environment variables",
     "no existing test sends a request to the server",
     ["restapi/configure_fave.go", "adapters/handlers/documents.go", "adapters/handlers/collections.go", "adapters/handlers/handler.go", "models/document.go"],
     [("translation between API and client", "adapters/handlers/*.go"), ("request validation", "models/*.go, restapi/embedded_spec.go"), ("start-up configuration", "restapi/configure_fave.go")],
     ["HTTP requests and responses", "environment variables"],
     check=("exhaustive exploration of request sequences, request fields and property values through the real server handler, against a reference model", "exploration", "all sequences of up to 3 of 13 requests; every field of every request body x 25 JSON values x 4 histories; 30 property values in and out; all 256 sets of environment variables; happens-before race detection for all ordered pairs of 12 requests on a warm and a restarted server"))

prop("C13", "Distance functions compute what they are named after",
     "Dot product, cosine, squared L2, Manhattan, Hamming and geo distance agree with their mathematical definition for vectors of every length, whatever the alignment of the data in memory and whichever implementation (vectorised or portable, one call or prepared) is used; they are symmetric, a number for all inputs in range, and refuse vectors of different length. Normalisation gives vectors of length one in the same direction and leaves the input alone. Calls at the same time do not influence each other.",
     ["inputs", "configurations"],
     "every vector length, every position in the vector, every alignment, every implementation",
     "the existing tests compare a few lengths and random vectors; an error in one lane or in the rest loop only shows for some lengths and positions",
     ["pkg/hnsw/distancer/*.go", "pkg/hnsw/distancer/asm/*.go"],
     [("vectorised kernels and their rest loops", "pkg/hnsw/distancer/asm"), ("providers", "pkg/hnsw/distancer/{cosine_dist,dot_product,l2,manhattan,hamming,geo_spatial,normalize}.go")],
     ["Provider.SingleDist", "Provider.New().Distance", "Provider.Step/Wrap", "Normalize"],
     check=("exhaustive enumeration of length x position x alignment x value pattern on the real code, against float64 references", "exploration", "lengths 0..1100, every position, 8 alignments, 16 value patterns, all providers; 14641 pairs of geo coordinates"))

prop("C14", "Search queues and visited sets behave like the sets they stand for",
     "For every sequence of operations, the priority queues return their items in order of distance with none lost, duplicated or mixed up, and report the right length and top; the visited set reports exactly the nodes visited since its last reset, for any node id and after any number of resets; the pool never hands the same set to two borrowers and hands out sets without old visits, whoever uses it at the same time.",
     ["histories"],
     "every sequence of inserts, pops, resets, visits, borrows and returns",
     "the existing tests run a handful of fixed sequences; the version counter of the visited set wraps only after 255 resets",
     ["pkg/hnsw/priorityqueue/queue.go", "pkg/hnsw/visited/list_set.go", "pkg/hnsw/visited/pool.go", "pkg/hnsw/pools.go"],
     [("heap", "pkg/hnsw/priorityqueue"), ("version counter instead of clearing", "pkg/hnsw/visited/list_set.go"), ("pool", "pkg/hnsw/visited/pool.go")],
     ["Queue.Insert/Pop/Top/Len/Reset", "ListSet.Visit/Visited/Reset", "Pool.Borrow/Return"],
     check=("exhaustive operation-sequence exploration of the real data structures against reference models", "exploration", "all sequences of up to 8 queue operations, all permutations and tie patterns of up to 9 items, all sequences of up to 6 visited-set operations including 254 resets in a row, all pool sequences up to 7; happens-before race detection for all pairs of 39 operation sequences of two users of one pool"))


prop("C08", "A lookup by value returns a current document that has exactly that value",
     "GetDocument with an indexed property and a value returns, unchanged, a stored document whose property has exactly that value (a list that contains it, a map that has the key with the value), and 'not found' when there is none: never another document whose value is longer, shorter, a neighbour in order or another key's, never a version that has been replaced, whatever other values are indexed, in whatever order documents were added and replaced, and after a restart. Every document is found by its id whatever characters it has. A property that is not indexed is an error.",
     ["inputs", "histories"],
     "every kind of index, every combination of values of up to three documents, every replacement, every looked-up value, with and without restarts",
     "the existing test looks up a value no other document has; wrong answers only appear between values that are prefixes or neighbours of each other, and after replacements",
     [DOC],
     [("the found document is compared with the request, because the index only seeks", DOC + " GetDocument, hasProperty"), ("index entries of replaced documents", DOC + " GetDocument")],
     ["GetDocument"],
     check=("exhaustive exploration of value combinations, replacements and lookups on the real client, against a reference model", "exploration", "8 kinds of index with 3 to 17 values each: all pairs of values, all single replacements, selected third documents and second replacements (thorough: all), every value of the alphabet and near misses looked up, twice with a restart between; four known findings in the dependency"))

prop("C12", "Texts are embedded faithfully, and a vectorizer that fails stores nothing",
     "Every text to be stored or searched is sent to the configured vectorizer exactly as the user gave it (the values of the named properties, whatever characters they have), and the vector it answers with is the one that is stored or searched. When the vectorizer cannot be reached, answers with an error status, with something that is not its answer format, with half an answer, with no vector or one that cannot be compared with the stored ones, the operation is an error: nothing of the batch is stored, no search result is returned, earlier documents stay as they were, and the operation succeeds when repeated once the vectorizer works again.",
     ["inputs", "fault_sequences", "histories"],
     "every kind of answer to every call of the vectorizer, in every position of a batch, after every history; every text",
     "the existing test asks a running vectorizer for one word",
     ["pkg/vectorizer/rest/vectorizer.go", "pkg/vectorizer/vectorizer.go", DOC],
     [("request and decoding of the answer", "pkg/vectorizer/rest/vectorizer.go"), ("embedding of a batch before any of it is stored", DOC + " AddDocuments"), ("embedding of a search text", DOC + " GetNearDocuments")],
     ["vectorizer.Corpi", "HTTP requests to the vectorizer", "AddDocuments", "GetNearDocuments"],
     check=("exhaustive fault enumeration: every kind of vectorizer answer at every call of every operation, on the real client", "fault_enumeration", "all kinds of answers (status codes, malformed, partial, oversized, other dimensions, connection failures) at every call of search, add, batch and replace after several histories; all texts of an alphabet of encodings; health and type"))

prop("C10", "The vector index answers every kind of search exactly on complete graphs",
     "For every supported metric and configuration, on an index with at most as many vectors as a node may have links, k-nearest search, search within a distance, page-wise unlimited search and filtered search (with and without the flat-search shortcut) return exactly the stored vectors that a brute-force comparison returns: right ids, each with its true distance, nearest first, none twice, none missing, whatever layers the vectors were placed on, in whatever order and under whatever ids they were added, before and after flushes, restarts and cache wipes. A read of the store that fails makes the search an error, never a shorter answer. A deleted vector (other than the entry point) is not returned by any search of the process, and the others still are. The count is the one last flushed.",
     ["inputs", "histories", "fault_sequences"],
     "every metric, configuration, set of vectors, filter, threshold, layer assignment and history of adds, flushes, restarts and cache wipes",
     "the existing test runs one data set, one metric and one kind of search, without restarts or failures",
     ["pkg/hnsw/search.go", "pkg/hnsw/search_with_max_dist.go", "pkg/hnsw/flat_search.go", "pkg/hnsw/insert.go", "pkg/hnsw/index.go", "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/heuristic.go"],
     [("layer descent and search of layer 0", "pkg/hnsw/search.go searchLayerByVector, knnSearchByVector"), ("search within a distance", "pkg/hnsw/search_with_max_dist.go"), ("filtered search", "pkg/hnsw/flat_search.go"), ("linking of new nodes", "pkg/hnsw/insert.go, neighbor_connections.go")],
     ["VectorIndex.Add", "Flush", "LoadEntrypoint", "SearchByVector", "SearchByVectorDistance", "KnnSearchByVectorMaxDist", "GetDocCount"],
     check=("exhaustive exploration of metrics, configurations, vector tuples, filters, layer assignments and histories on the real index, against brute force", "exploration", "5 metrics x 3 configurations x all tuples of up to 3 of 7 vectors x all filters; all layer assignments up to layer 2 of 5 vectors; all histories of up to 5 operations; every failing store call of every search; pages of up to 128 results"))

prop("C11", "Large collections keep every vector reachable",
     "Also beyond the sizes at which links between vectors are dropped, node caches evict, and preallocated tables grow, every stored vector is the best match of a search for itself, and up to 800 different vectors an unlimited search returns all of them (and with a filter all that it allows) with their true distances: whatever the shape of the data (clusters, lines, circles, many dimensions, duplicates), the ids and their order, and in whatever portions the vectors were flushed, reopened or evicted from the cache. Adding, flushing and reopening succeed at every such size. Searches, adds, changes of settings and evictions at the same time share no memory without synchronisation.",
     ["inputs", "histories"],
     "every collection size around the internal limits, every shape of data, every id, every history of flushes, restarts and cache wipes",
     "the existing tests hold at most 100 vectors in one process, below every internal limit",
     ["pkg/hnsw/insert.go", "pkg/hnsw/index.go", "pkg/hnsw/neighbor_connections.go", "pkg/hnsw/heuristic.go", "pkg/hnsw/vector_cache.go", "pkg/hnsw/vertex.go", "pkg/hnsw/maintainance.go", "pkg/hnsw/visited/list_set.go"],
     [("selection of links when a node has too many", "pkg/hnsw/heuristic.go, neighbor_connections.go connectNeighborAtLevel"), ("growth of caches", "pkg/hnsw/vector_cache.go grow, maintainance.go"), ("nodes not flushed yet", "pkg/hnsw/index.go keepUntilFlush")],
     ["VectorIndex.Add", "Flush", "LoadEntrypoint", "KnnSearchByVectorMaxDist", "GetDocCount"],
     check=("exhaustive exploration of a grid of sizes, data shapes, id patterns and flush/restart/eviction histories on the real index, against brute force", "exploration", "9 data shapes x 10 sizes from 29 to 300 x layer seeds x histories, 180 id patterns up to 2,000,000, 10,050 vectors with and without flush and restart; more than 60 exact duplicates are a known finding"))

prop("C15", "A commit log reads back as the graph it recorded",
     "Reading the files of a commit log from old to new gives exactly the nodes, layers, links, entry point and tombstones that were recorded, whatever the sequence of records and in however many files they are; the log kept by an index reads as the graph that the index has stored, after every flush, maintenance, backup and restart. Switching files, condensing old files and combining condensed ones never changes what the log reads as. A file that ends in the middle of a record gives all complete records before it and the length up to which it is valid, and a new process can go on from there. A process death at any point of recording, flushing, switching, condensing or combining loses nothing that was flushed, and a backup (pause, switch, listed files) contains everything that was flushed before. All of it holds when recording, flushing, switching and maintenance run at the same time, which share no memory without synchronisation.",
     ["histories", "crash_points", "inputs"],
     "every sequence of records, every distribution over files, every moment of maintenance, restart, backup and process death, every byte at which a file can end",
     "no existing test uses a commit log",
     ["pkg/hnsw/commit_logger.go", "pkg/hnsw/deserializer.go", "pkg/hnsw/condensor.go", "pkg/hnsw/commit_log_combiner.go", "pkg/hnsw/corrupt_commit_logs_fixer.go", "pkg/hnsw/backup.go", "pkg/hnsw/insert.go", "pkg/hnsw/neighbor_connections.go"],
     [("records", "pkg/hnsw/commit_logger.go"), ("reading", "pkg/hnsw/deserializer.go Do"), ("maintenance", "pkg/hnsw/condensor.go, commit_log_combiner.go"), ("recovery", "pkg/hnsw/corrupt_commit_logs_fixer.go"), ("what an index records", "pkg/hnsw/insert.go, neighbor_connections.go"), ("backup", "pkg/hnsw/backup.go")],
     ["hnsw.NewCommitLogger", "CommitLogger methods", "hnsw.NewDeserializer", "hnsw.NewCorruptedCommitLogFixer", "files of the log", "ListFiles"],
     check=("exhaustive exploration of record sequences, file switches, maintenance runs, restarts and process deaths (every file system change, every byte written) on the real commit log, against a reference model", "fault_enumeration", "all sequences of up to 3 (4) of 19 records, cut at every byte; all sensible sequences of up to 4 (5) of 15 records and maintenance steps; every crash image of 49 (343) histories; indexes of up to 75 (300) vectors with a log, backups and restarts; two known findings"))

prop("C16", "Index settings mean what was written, or are refused",
     "Every setting of an index (connections, widths of searches and of construction, cache size, cutoff, clean-up interval, metric, compression) that a JSON document names takes exactly the named value, whichever other settings are named and whether numbers arrive as text or as floating point; settings that are not named have their documented default. Numbers beyond the range of 64 bits are limited to that range with their sign kept. Fewer than 4 connections, a construction width below 4, an unknown encoder or distribution, and a document that is not an object are refused. Settings that were accepted, written down as JSON and read again are the same, also when several documents are read at the same time. An index is not created without an id, a path, a log, a source of vectors and a metric. It searches with the breadth that its settings ask for. A change of the connections, the construction width or the clean-up interval of an index is refused, any other is not, and afterwards the open index searches as one that was opened with the new settings.",
     ["inputs", "configurations"],
     "every combination of settings and values",
     "the existing table has 10 documents, all within the usual range",
     ["pkg/hnsw/user_config.go", "pkg/hnsw/pq_config.go", "pkg/hnsw/config.go", "pkg/hnsw/config_update.go", "pkg/hnsw/search.go"],
     [("parsing and limits", "pkg/hnsw/user_config.go ParseAndValidateConfig, optionalIntFromMap"), ("compression settings", "pkg/hnsw/pq_config.go parsePQMap"), ("internal settings", "pkg/hnsw/config.go Validate"), ("changes of settings", "pkg/hnsw/config_update.go"), ("breadth of searches", "pkg/hnsw/search.go searchTimeEF, autoEfFromK")],
     ["hnsw.ParseAndValidateConfig", "hnsw.NewDefaultUserConfig", "UserConfig.SetDefaults", "Config.Validate", "hnsw.New", "hnsw.ValidateUserConfigUpdate", "UpdateUserConfig", "SearchByVector"],
     check=("exhaustive enumeration of settings, pairs of values and subsets of settings on the real parser against the documented meaning, and of changes of settings on the real index against indexes opened with them", "exploration", "17 settings, 35 numbers, all pairs of values of all pairs of settings, all 131,072 subsets, all sets of internal settings; 90 settings of searches x changes to 7 (all) others x 75 searches; all sets of changed settings"))
