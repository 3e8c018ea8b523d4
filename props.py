# Per property: harness sources, case counts (quick, thorough) per build configuration, and the evidence texts.
PROPS = {}
def prop(id, src, rel=None, asan=None, tsan=None, rule="", **kw):
    configs = {}
    if tsan: configs["tsan"] = tsan
    if asan: configs["asan"] = asan
    if rel: configs["rel"] = rel
    PROPS[id] = dict(src=src if isinstance(src, list) else [src], configs=configs, rule=rule, **kw)
prop("C01", "c01.cpp", rel=(48000, 400000), asan=(3600, 20000),
     rule="random graph (tiny/structured/multi-arc/cluster/grid, several weight regimes) x build variant x all or sampled node pairs and multi-source/target queries; non-trivial: at least one query with finite positive distance; distinct by graph hash",
     require=["reachable queries", "multi source/target queries"])
prop("C02", "c02.cpp", rel=(72000, 400000), asan=(5400, 20000),
     rule="random graph x build variant x all or sampled pairs and multi-end queries, every returned path walked arc by arc; non-trivial: some path with positive length; distinct by graph hash", require=["deeply nested hierarchies", "paths checked", "unreachable path queries"])
prop("C03", "c03.cpp", rel=(72000, 300000), asan=(7200, 20000),
     rule="random graph x sequence of pin/re-pin/run/reset with random pinned lists (empty, duplicates, longer than node count); non-trivial: a reachable entry at positive distance; distinct by graph hash", require=["reachable pinned entries"])
prop("C04", "c04.cpp", rel=(27000, 150000), asan=(3600, 10000),
     rule="random graph x extra weights (free monoid, affine maps, saturating unsigned/int) x point and pinned queries; non-trivial: a checked path with at least two arcs; distinct by graph hash", require=["pinned paths checked", "extra weight values checked"])
prop("C05", "c05.cpp", rel=(1800, 30000), asan=(750, 6000),
     rule="random hierarchy written by every writer, read by every reader, then truncated at every (small files) or sampled lengths, extended, marker-damaged or given ranks that are no permutation; non-trivial: file larger than 200 bytes; distinct by file content", require=["hierarchies with arc counts that are multiples of 512", "file sizes beyond 32 bits", "corrupt ranks", "truncations"])
prop("C06", "c06.cpp", rel=(270000, 1500000), asan=(16200, 60000),
     rule="random graph x CH query / CCH query / Dijkstra object driven through a random history of point, pinned and abandoned queries with resets in between, some with more than 65536 resets; every answer compared with an independent Dijkstra; non-trivial: more than three arcs; distinct by graph and object kind",
     require=["CH histories", "CCH histories", "dijkstra histories", "queries around flag wrap", "abandoned", "abandoned pinned"])
prop("C07", "c07.cpp", rel=(50000, 400000), asan=(3750, 20000),
     rule="random graph x node order (random, identity, minimum degree, inertial flow) x filtering x several metrics (zero, tie, infinite and near-infinite weights) x all or sampled pairs and multi-end queries; distances and paths checked against an independent Dijkstra; non-trivial: a finite positive distance; distinct by graph hash",
     require=["deeply nested hierarchies", "paths checked", "unreachable path queries", "multi source/target queries"])
prop("C08", "c08.cpp", rel=(96000, 400000), asan=(7200, 20000),
     rule="random graph x order x metric x sequences of pin/run/re-run/re-pin; non-trivial: a reachable entry at positive distance; distinct by graph hash",
     require=["reachable pinned entries", "unreachable pinned entries", "pinned lists longer than the node count"])
prop("C10", "c10.cpp", rel=(30000, 200000), asan=(2400, 10000),
     rule="random graph x order x sequences of weight updates (increase, decrease, to and from infinity, duplicates) reported to a partial customization, all answers compared with an independent Dijkstra on the new weights after every round; non-trivial: a finite positive distance; distinct by final graph",
     require=["partial customizations", "paths checked", "queue resets"])
prop("C11", "c11.cpp", rel=(48000, 200000), asan=(4000, 15000),
     rule="random graph x order x metrics; hierarchy from perfect witness search queried for distances, paths and pinned sets; non-trivial: a finite positive distance; distinct by graph hash",
     require=["paths checked", "pinned runs"])
prop("C12", "c12.cpp", rel=(72000, 400000), asan=(12000, 40000),
     rule="pool of 2-4 graphs of different and equal sizes; query, metric, partial, parallel and Dijkstra objects (constructed, default constructed over old memory, copied, moved) are rebound in random states and then questioned; every answer compared with an independent Dijkstra on the data bound last; every case is non-trivial; distinct by case seed",
     require=["rebindings CH", "rebindings CCH", "rebindings dijkstra", "CCH copied", "metric rebindings", "partial rebindings", "parallel rebindings", "graph refilled in place"])
prop("C09", "c09.cpp", rel=(600, 20000), tsan=(60, 4000), asan=None,
     rule="random and large graphs x order x metric x 2-8 threads, native OpenMP (rel) and under ThreadSanitizer with a pthread OpenMP runtime that injects delays (tsan); all distances compared with sequential customization and an independent Dijkstra; distinct by graph and observed assignment of work chunks to threads",
     require=["parallel customizations", "contended customizations", "concurrent customizations", "monitored work chunks"], parallel=6)
prop("C13", "c13.cpp", rel=(12000, 300000), asan=(1800, 30000),
     rule="random graph (disconnected, loops, parallel arcs, no nodes, degenerate coordinates) x separator function (random nodes, derived from random cuts, single nodes, inertial flow); fragments, components, trees and orders recomputed independently, every fragment handed to the separator callback is checked as it passes; non-trivial: the separator function was called; distinct by graph hash",
     require=["separator trees checked", "separator calls", "components", "inertial flow orders"])
prop("C14", "c14.cpp", rel=(8000, 300000), asan=(1000, 30000),
     rule="random fragment x random disjoint terminal sets driven to completion, cuts recounted and compared with an independent augmenting-path max-flow; inertial flow with balance 0-50 on random, grid and degenerate coordinates; random cuts for separators; non-trivial: fragment with arcs; distinct by graph hash",
     require=["inertial flow on huge fragments", "flows with positive value", "inertial minimality checks", "separator nodes", "inertial flow cuts"])
prop("C15", "c15.cpp", rel=(300000, 500000), asan=(40000, 50000),
     rule="random graph x scalar or FIFO time-dependent weight functions (slots, closing times, slower later) x 1-5 sources with departure times x stopping point; every settle event checked online, departure times passed to the weight function checked; non-trivial: more than two reachable nodes; distinct by graph and weight kind",
     require=["paths that exceed infinity", "settle events", "early stops", "time dependent searches", "paths checked", "weight requests observed"])
prop("C16", "c16.cpp", rel=(240000, 800000), asan=(36000, 80000),
     rule="random operation sequences on MinIDQueue (push, pop, decrease, increase, clear, swap, copy), IDSetMinQueue and TimestampFlags (including more than 65536 resets) of sizes 0..400 around powers of two, mirrored step by step by map/set models; distinct by pop history",
     require=["effective decreases", "effective increases", "ineffective decreases", "ineffective increases", "swaps", "copies", "clears", "queues cleared with more than 65536 elements", "repeated insertions", "wraps around 65536", "set pops"])
prop("C17", "c17.cpp", rel=(56250, 800000), asan=(11250, 80000),
     rule="three bit vectors driven through random operation sequences with sizes concentrated around multiples of 64 and 512 and at 0, mirrored by vector<bool>; all bits, counts, tests, padding and comparisons checked after every step; distinct by operation/size history",
     require=["vectors beyond 2^32 bits", "failed allocations", "large vectors", "growing resizes", "shrinking resizes", "same size resizes", "grow on demand", "copies", "moves", "binary operators", "comparisons"])
prop("C18", "c18.cpp", rel=(96000, 300000), asan=(24000, 40000),
     rule="random bit patterns (empty, full, random, periodic, runs, isolated, exact multiples of the select sample) of sizes 0..300000; every or a dense sample of global and local ids mapped both ways and recounted; non-trivial: some id is mapped; distinct by pattern",
     require=["ids in a space beyond 2^32", "mapped ids", "unmapped ids", "mappers with several select samples", "copied mappers"])
prop("C19", "c19.cpp", rel=(192000, 900000), asan=(32000, 100000),
     rule="random vectors of unsigned, string and keyed records x key counts (dense, sparse, at the switching ratio) x comparators; random permutations, filters, min/max and sorted key vectors; each result compared with its elementwise definition; non-trivial: more than one element; distinct by content",
     require=["dense key sorts", "sparse key sorts", "invalid elements", "filtered elements", "inverse vectors"])
prop("C20", "c20.cpp", rel=(225000, 600000), asan=(30000, 50000),
     rule="random arc lists (dense and sparse node ranges, parallel arcs, loops) sorted by every sort function, all or sampled node pairs looked up in both lookup functions, random walks converted both ways; non-trivial: more than two arcs; distinct by graph hash",
     require=["sparse arc lists", "existing arcs looked up", "missing arcs looked up", "walks converted", "walks of more than 65535 arcs converted"])
prop("C21", "c21.cpp", rel=(36000, 500000), asan=(6000, 50000),
     rule="random directed graphs, sparse graphs with many components, no nodes, and chains/cycles of up to 300000 nodes on a 512 KiB stack; components compared with an independent Kosaraju; non-trivial: at least two components and one larger than one node; distinct by graph hash",
     require=["deep graphs", "graphs without nodes", "components"])
prop("C22", "c22.cpp", rel=(62400, 200000), asan=(9360, 20000), har_flags={"rel": ["-ffast-math"]},
     rule="coordinate pairs (identical, centimetre to antipodal, poles, date line) compared with a long double chord formula; point sets (global, region, village, duplicates, clusters, pole, date line) x query positions x radii compared with exhaustive search; non-trivial: query over more than eight points with non-empty result; distinct by query",
     require=["distances", "identical points", "antipodal pairs", "road scale distances", "neighbours found", "empty nearest neighbour answers", "points in radius results"])
prop("C23", "c23.cpp", rel=(24000, 400000), asan=(6000, 60000), tsan=(3000, 40000),
     rule="byte source with random length, chunking, delays and injected failures x block size 1..4096 x request sizes x consumer delays x moves x early destruction, every byte compared with its position and again before the next request; file sources on real files; non-trivial: more than three requests on a non-empty stream; distinct by the observed interleaving (request size, bytes delivered so far)",
     require=["files beyond 4 GB", "short reads", "source failures reported", "moves", "abandoned readers", "oversized requests", "file sources", "file read errors injected", "pipes", "tails read after a short read"])
prop("C24", "c24.cpp", rel=(150000, 2000000), asan=(30000, 300000),
     rule="random protobuf messages (all wire types, boundary varints, non-minimal encodings, any alignment) decoded from exact-size heap buffers, then every truncation, byte damage, absurd lengths and random bytes; event lists and accept/reject compared with an independent decoder; non-trivial: message with at least two fields; distinct by message",
     require=["well-formed messages", "malformed messages", "long varints", "truncations"])
prop("C33", "c33.cpp", rel=(112500, 1000000), asan=(15000, 100000),
     rule="one tag map object driven through random builds (0 to 140000 keys, realistic keys, empty key, arbitrary bytes, engineered hash collisions), clears, copies and moves, mirrored by std::map; size, iteration, all hits and many misses (including keys of earlier content, whose strings are freed) checked after each step; distinct by build history",
     require=["builds with more than 65536 tags", "clears", "copies", "large builds", "builds with keys longer than 255", "empty builds", "misses", "hits"])
prop("C25", "c25.cpp", rel=(1500, 60000), asan=(200, 5000), tsan=(80, 2000),
     rule="random OSM content written by an independent PBF writer (raw/zlib blocks, block and group sizes, field orders, dense/sparse, granularities, offsets, info and unknown fields and blocks, multi-megabyte blocks) x reading mode x handler subset x handler exception; the trace of callbacks compared element by element with the content; non-trivial: more than two elements; distinct by file bytes",
     require=["dense nodes", "sparse nodes", "ways", "relations", "ordered reads", "handler exceptions", "reads with missing handlers", "blocks with unusual coordinate systems", "files with huge blocks"],
     env={"VH_X": "1"})
prop("C26", "c26.cpp", rel=(6000, 80000), asan=(1200, 10000), tsan=(180, 1500),
     rule="random valid PBF files damaged on every level (bytes, truncation, splices, framing lengths, compressed payload, announced sizes, bytes inside of correctly compressed blocks, string/role ids, list lengths, empty, header only, missing) x reading mode x handlers; watched for sanitizer reports, hangs, leaked descriptors and heap growth, and damages that make a block inconsistent must end in an exception; non-trivial: damaged non-empty file; distinct by file bytes",
     require=["truncations", "byte flips", "damaged blocks", "inconsistent blocks", "damaged compressed data", "size mismatches", "empty files", "header only files", "missing files", "leak checks", "reads ended by an exception", "reads ended normally"])
prop("C27", "c27.cpp", rel=(25000, 300000), asan=(5000, 40000),
     rule="random road networks (grid walks with crossings, loops, repeated and coinciding nodes, short and empty ways, sparse ids, poles, date line neighbourhood) x way selection x directions x explicit nodes x geometry mode x file order and layout; mapping and every arc matched with an independent construction; non-trivial: more than four arcs; distinct by graph",
     require=["ways of more than 2000 nodes", "arcs with geometry", "all modelling nodes as routing nodes", "explicit routing nodes", "sorted file reads", "graphs without ways", "arcs checked"])
prop("C28", "c28.cpp", rel=(80000, 600000), asan=(10000, 60000),
     rule="random road networks x restriction relations around real crossings (roles missing, repeated, of wrong type, without via node, unknown values) decoded and resolved independently into turns that must and may be forbidden; the returned turn list must lie between them, be sorted, unique and meet at a node; non-trivial: at least one turn must be forbidden; distinct by graph and turns",
     require=["restrictions resolved", "restrictions ignored", "via nodes inferred", "resolved by direction", "forbidden turns checked"])
prop("C29", "c29.cpp", rel=(270000, 3000000), asan=(27000, 200000),
     rule="20 random tag sets per case over every key the profiles look at (all values of the rule tables, near misses, malformed, hostile and very long values, look-alike keys), each asked twice, with and without logger; compared with an independent table; non-trivial: every case; distinct by tag sets",
     require=["used by cars", "not used by cars", "used by pedestrians", "not used by pedestrians", "used by bicycles", "not used by bicycles", "posted speeds checked", "car direction 2", "car direction 3", "bicycle direction 2", "bicycle direction 3", "comfort 4", "comfort 0"])
prop("C30", "c30.cpp", rel=(9000, 200000), asan=(1800, 30000),
     rule="random road network with random profile tags and turn restrictions written as PBF by an independent writer, loaded by all three one-call loaders (with/without logger, all-modelling-nodes, ordered hint), compared with the composed building blocks and with an independent construction of the graph; non-trivial: more than two arcs; distinct by graph and profile",
     require=["car arcs", "bicycle arcs", "pedestrian arcs", "forbidden turns", "arcs beyond 32 bit products", "ordered hint given"])
prop("C31", "c31.cpp", rel=(26000, 500000), asan=(3900, 60000),
     rule="random vectors of 8 element types, strings and bits written, compared byte by byte with a reference encoding and reloaded; file truncated, extended, header damaged; destination unopenable, full (/dev/full) or size limited (RLIMIT_FSIZE); read(2) interposed to deliver short reads and EIO at random offsets; non-trivial: more than one element; distinct by content",
     require=["files beyond 4 GB", "string vectors", "bit vectors", "empty vectors", "full device writes", "size limited writes", "missing files", "impossible sizes", "wrong element counts", "damaged bit vector files"])
prop("C34", "c34.cpp", tsan=(700, 30000), rel=(1500, 60000),
     rule="random graph, fresh shared CH, CCH, metric, perfect hierarchy, graph arrays, nearest neighbour index and identifier mappers; 2-8 threads started together run their own query objects, customizations or independent constructions; ThreadSanitizer watches, answers compared with an independent Dijkstra and with a later single threaded repetition; distinct by graph and mix of work",
     require=["concurrent CH queries", "concurrent CCH queries", "concurrent Dijkstra", "concurrent nearest neighbours", "concurrent identifier mapping", "concurrent own metric on a shared CCH", "concurrent extra weight queries", "concurrent file loading and saving"])
prop("C35", "c35.cpp", rel=(600000, 3000000), asan=(120000, 500000),
     rule="graphs with 0, 1, 2, ... nodes that have no arcs, only loops, only infinite or zero weights, only parallel arcs or one arc, sent through every index, build variant, customization, copy/move/save path, query kind and logger setting under AddressSanitizer/UBSan; answers compared with an independent Dijkstra; distinct by graph, index and logger",
     require=["graphs without nodes", "no arcs", "only loops", "only infinite", "driven CH", "driven CCH", "driven perfect CH", "driven CCH on nested dissection", "driven Dijkstra", "components computed", "containers", "hierarchies reloaded", "without logger", "log messages"])
prop("C36", "c36.cpp", rel=(150000, 1000000), asan=(15000, 60000),
     rule="random hierarchy (built, rebuilt for an order, reloaded, derived from a CCH) checked arc by arc against the input graph by an independent structure check and then damaged in one place in twenty ways (order, rank, array lengths, offsets, heads, halves, weights, original arcs); the library's validity check must accept the former and reject the latter without touching memory out of bounds; non-trivial: more than four arcs; distinct by graph",
     require=["original arcs", "shortcuts", "perfect hierarchies", "reloaded hierarchies", "built hierarchies"]+["damage kind %02u"%i for i in range(20)])
prop("C32", "c32.cpp", rel=(6250, 150000), asan=(750, 10000), tools=["rel", "asan"],
     rule="each case runs several tools as processes in a scratch directory (text conversion of random vectors of every type, DIMACS conversion and export, query generation, Dijkstra, hierarchy, order, weight, permutation, drawing tools, OSM extraction; malformed and missing inputs), reads the outputs with raw IO and compares them with an independent computation; distinct by content",
     require=["shown paths walked", "spread checks", "vectors converted to text and back", "string vectors converted to text and back", "differences reported", "equalities reported", "graphs converted and exported", "coordinates converted", "rejected inputs", "distances of tools checked", "empty query lists", "graphs without arcs", "orders checked", "geographic weights", "permutations checked", "reproducibility checks", "paths shown", "generator runs", "rank queries", "full extracts", "extracts without arcs"])
