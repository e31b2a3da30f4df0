#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=hook)))

MM = ["goko/src/monomap/mod.rs", "goko/src/monomap/read.rs", "goko/src/monomap/write.rs", "goko/src/monomap/inner.rs"]
p("C01", "Readers of the concurrent map only ever see published states, in order",
  "A read of the map behind each tree layer sees exactly one of the states that a refresh has published: no operation the writer has queued since, and no mixture of two states. The state a read sees is at least as new as the last refresh that completed before the read began, and successive reads through one handle never go back to an older state. Before the first refresh and after the writer is gone a lookup reports nothing.",
  ["schedules", "histories"], "every interleaving of any number of readers (several handles, cloned at any time) with one writer that inserts, updates, removes, purges, sets meta data and refreshes",
  "The tests of the map are single threaded; they never overlap a read with a refresh.",
  MM, [("epoch handshake: a reader announces itself before it loads the pointer, the writer waits for announced readers after it swaps", "goko/src/monomap/read.rs with_handle, goko/src/monomap/write.rs wait/refresh"),
       ("operations go to the copy readers cannot see, and to the other copy after the swap", "goko/src/monomap/write.rs refresh")],
  [("handle", "the copy readers are directed to", "goko/src/monomap/read.rs"), ("w_handle, oplog, swap_index", "the writer's copy and what it still has to apply", "goko/src/monomap/write.rs"), ("epochs, last_epochs", "which readers may be inside a copy", "goko/src/monomap/mod.rs, write.rs")],
  ["get_and, get_meta_and, meta_get_and, contains_key, len, for_each, map_into of every handle"], "cfg(goko_verif) scheduler points at every atomic access, lock and spin of goko/src/monomap")
p("C02", "Nothing is changed or freed under a reader that is still inside a read",
  "From the moment a read closure gets a reference until it returns, the value behind it is neither changed, nor replaced, nor dropped, whatever the writer does in the meantime: update it, remove it, refresh any number of times, or be dropped itself. This also holds for a read made from inside another read on the same handle and after a read closure has panicked. A refresh (or the drop of the writer) does wait only for reads that are in progress: once they have ended it completes.",
  ["schedules", "histories"], "every interleaving of readers, including nested and panicking reads and handles created or dropped at any time, with a refreshing or dropping writer",
  "Use after free needs a reader to be inside a closure while the writer refreshes twice or is dropped; no test overlaps the two.",
  MM, [("wait for every reader that was inside the map at the swap", "goko/src/monomap/write.rs wait"), ("epoch is closed by a drop guard", "goko/src/monomap/read.rs")],
  [("epochs / last_epochs", "odd-even (top bit) epoch per reader", "goko/src/monomap/mod.rs")], ["values with canaries, dropped flags"], "cfg(goko_verif) scheduler points")
p("C03", "A refresh publishes every queued operation exactly once and in order",
  "After a refresh the readers' map equals the result of applying all operations queued so far, each exactly once and in the order they were queued, to the empty map, and carries the meta data set last. This stays so over any number of refreshes, whichever of the two copies is being read, with or without writes in between, and when the writer is dropped with operations pending nothing readable is left behind and every value is released.",
  ["histories", "schedules"], "every sequence of insert, update, remove, purge, set_meta, refresh, flush and drop, with readers coming and going",
  "Tests do one or two operations before a refresh; the second copy only matters from the third refresh on, and purge, update and the first/second phases interact.",
  MM, [("operation log replayed on the second copy", "goko/src/monomap/write.rs refresh, apply_first/apply_second")],
  [("oplog, swap_index, first, second", "how much each copy has applied", "goko/src/monomap/write.rs")], ["full contents and meta through a read handle after each refresh"], None)

TB = ["goko/src/covertree/builders.rs", "goko/src/covertree/tree.rs", "goko/src/covertree/layer.rs", "goko/src/covertree/node.rs"]
p("C04", "A built tree files every point exactly once and is well formed",
  "Every point of the cloud has exactly one home in a built tree (a leaf it is the centre of, or the outlier list of one node), and walking the tree from the root by its child references reaches every node once: no dangling reference, no unreachable node, parent addresses that agree with child references, and every node on the layer of its scale. The number of points a node says it covers, its outlier and child counts and the tree's node and layer counts equal what the tree contains.",
  ["inputs", "configurations", "schedules"], "every point set (duplicates, one point, one cluster, exact powers of the base), all build parameters, every schedule of the builder's thread pool",
  "The tests build two or three fixed clouds and compare totals.",
  TB, [("split of a covered set into nested child, children and outliers", "goko/src/covertree/builders.rs"), ("node counting before a node is sent to the collector", "goko/src/covertree/builders.rs"), ("final address map", "goko/src/covertree/tree.rs refresh_final_indexes")],
  [("layers", "scale -> centre -> node", "goko/src/covertree/tree.rs"), ("final_addresses", "home of every point", "goko/src/covertree/tree.rs")], ["CoverTreeReader::{layers,get_node_and,known_path,node_count,len}"], None)
p("C05", "Covering, separation and radius hold at every node",
  "Everything under a node at scale index s lies strictly within base^s of its centre (at most base^s for the root), the centres of a node's children and outliers are pairwise at least base^t apart where t is the scale index of those children, and children always have a smaller scale index than their parent. The radius a node reports is the distance from its centre to the farthest point it covers.",
  ["inputs", "configurations", "schedules"], "every point set, every base, cutoff, resolution, partition rule and singleton setting",
  "The tests check covering on the MNIST sample at most, with one base and no ties.",
  TB, [("covered data caches, next-scale computation", "goko/src/covertree/data_caches.rs, builders.rs")], [("radius, scale index", "of each node", "goko/src/covertree/node.rs")], ["CoverTreeReader"], None)
p("C06", "The build parameters mean what they say",
  "A node is a leaf exactly when it covers no more points than the leaf cutoff, has a scale index below the minimum resolution, or splitting it leaves only outliers; no node has a scale index more than one below the minimum resolution. Outliers appear in routing nodes exactly when singletons are enabled, and then no child covers a single point. A point in the reach of several clusters belongs to the nearest centre (partition 'nearest') or to the nested child if that covers it and else to the first created child that covers it (partition 'first'); a builder made from a YAML file uses the values given there.",
  ["inputs", "configurations"], "every point set, all combinations of base, leaf cutoff, minimum resolution, singletons and partition rule, given through setters or a YAML file",
  "Tests use one configuration per test and do not look at the partition rule at all.",
  TB, [("leaf rule and next scale", "goko/src/covertree/builders.rs"), ("nearest / first split", "goko/src/covertree/data_caches.rs"), ("CoverTreeBuilder::from_yaml", "goko/src/covertree/builders.rs")], [], ["CoverTreeReader", "CoverTreeBuilder fields"], None)
p("C07", "Building terminates and is reproducible from its seed",
  "Building a tree (with a base above 1, over a non-empty cloud with finite distances, from outside the thread pool) always returns, for any number of worker threads, and returns a tree or, if the cloud fails to deliver a point, that error, never a panic. With the same cloud, parameters and random seed the resulting trees are identical node for node whatever the number of threads and their scheduling.",
  ["schedules", "inputs", "configurations"], "every schedule of the worker pool, thread counts from one up, all point sets including degenerate ones",
  "The tests build a tree once, on one schedule, and do not compare two builds.",
  TB, [("per-node rng seeded with seed xor centre index", "goko/src/covertree/builders.rs"), ("total_nodes counted before the parent is sent", "goko/src/covertree/builders.rs")], [("total_nodes", "when the collector may stop", "goko/src/covertree/tree.rs")], ["CoverTreeBuilder::build"], None)
Q = ["goko/src/covertree/tree.rs", "goko/src/covertree/node.rs", "goko/src/covertree/query_tools/knn_query_heap.rs", "goko/src/covertree/query_tools/query_items.rs"]
p("C08", "k-nearest-neighbour queries are exact",
  "A knn query for any point and any k returns min(k, number of points) distinct point indexes whose distances are the smallest k distances from the query to the cloud, each reported with its true distance and in ascending order.",
  ["inputs", "configurations"], "every tree, query point and k, including k of zero, larger than the cloud, duplicates and ties",
  "The tests compare with brute force on one or two clouds and a few k.",
  Q, [("two-heap best-first search with pruning", "goko/src/covertree/query_tools/knn_query_heap.rs")], [("child_heap, singleton_heap, dist_heap", "frontier and best so far", "knn_query_heap.rs")], ["CoverTreeReader::knn"], None)
p("C09", "Routing knn queries are exact over the routing centres",
  "A routing knn query returns min(k, number of distinct node centres) distinct indexes of points that are the centre of some node, with the smallest k distances from the query to such points, each with its true distance and in ascending order.",
  ["inputs", "configurations"], "every tree, query point and k", "There is no test of it against brute force.",
  Q, [("greedy search without outliers", "goko/src/covertree/tree.rs routing_knn")], [], ["CoverTreeReader::routing_knn"], None)
p("C10", "A query path follows the partition rule, and indexed points route home",
  "The path of a query starts at the root and at each node goes on to the nearest covering child (or the first covering child, nested first, under partition 'first'), stopping only where that child does not cover the query or at a leaf; each entry carries the true distance to that node's centre. The known path of an indexed point is the chain of ancestors from the root to the node that holds the point, equals the path of the point's own coordinates, and asking for an index that is not in the tree is an error.",
  ["inputs", "configurations"], "every tree, every query point, every index", "The tests check a handful of paths on a fixed cloud.",
  Q, [("nearest_covering_child, first_covering_child", "goko/src/covertree/node.rs"), ("final_addresses", "goko/src/covertree/tree.rs")], [], ["CoverTreeReader::{path,known_path}"], None)
p("C11", "A saved and reloaded tree is the same tree",
  "Saving a tree and loading it over the same cloud gives a tree with the same parameters (base, leaf cutoff, minimum resolution, singletons, partition rule), root, nodes, home of every point and answers to every query; saving it again gives a tree that loads the same way. Saving over an existing file replaces it.",
  ["inputs", "configurations", "histories"], "every tree that can be built, including leaf-only trees, negative scales and outlier-heavy nodes",
  "One test saves and loads one tree and checks part of the nodes.",
  ["goko/src/utils.rs", "goko/src/covertree/tree.rs", "goko/src/covertree/layer.rs", "goko/src/covertree/node.rs", "goko/src/tree_file_format.rs"],
  [("protobuf save/load", "CoverTreeWriter::{save,load}, CoverLayerWriter::{save,load}, CoverNode::{save,load}")], [], ["goko::utils::{save_tree,load_tree}"], None)
p("C12", "Node plugins summarise exactly the points below their node",
  "For every node of a tree with plugins attached: the categorical (Dirichlet) distribution counts for each child the points that child covers and for the outliers their number, and totals the points the node covers; the covered-index lists are exactly the points below the node and present exactly on nodes that cover fewer points than the largest limit attached; the diagonal Gaussian's count and first and second moments are those of the points below the node, and adding, removing and merging on it keep counting exactly what went in; label and meta summaries count exactly the labels below it.",
  ["inputs", "configurations"], "every tree shape, every order of attaching plugins", "The tests compare a few nodes of one tree.",
  ["goko/src/plugins/mod.rs", "goko/src/plugins/discrete/categorical.rs", "goko/src/plugins/discrete/dirichlet.rs", "goko/src/plugins/gaussians/mod.rs", "goko/src/plugins/labels.rs", "goko/src/plugins/utils.rs", "goko/src/covertree/tree.rs"],
  [("bottom-up plugin construction", "CoverTreeWriter::add_plugin, GokoPlugin::node_component")], [], ["get_node_plugin_and, get_node_label_summary, get_node_metasummary"], None)
p("C13", "Attaching plugins publishes them all and changes nothing else",
  "When attaching a plugin returns, every reader, however old, sees it on every node that should carry it, together with every plugin attached before, and the structure and query answers of the tree are unchanged. While it is being attached, concurrent readers see a node with or without the new plugin, never without one that was attached before, a node carries it only after all its children do, and once a reader sees the plugin on the tree every node carries it.",
  ["schedules", "histories"], "every order and number of plugins, readers querying at every moment of the attachment", "No test reads during attachment or attaches more than a few plugins.",
  ["goko/src/covertree/tree.rs", "goko/src/covertree/layer.rs", "goko/src/covertree/node.rs", "goko/src/plugins/mod.rs", "goko/src/monomap/write.rs"],
  [("layer by layer update and refresh, smallest scale first", "CoverTreeWriter::add_plugin")], [], ["CoverTreeReader"], None)
p("C14", "A tracker's state is the sum of the paths in its window",
  "After any sequence of paths a tracker with window w > 0 holds exactly the last w of them (all of them if w is zero), each node's evidence counts for each child and for stopping there equal the number of times the paths in the window did so, and nodes no path in the window visits carry nothing: everything it reports (evidence, probability vectors, layer totals, divergences) is what a new tracker given just those paths reports. Appending another tracker adds the paths in its window (a limited tracker can only take them from a limited one).",
  ["histories"], "every sequence of paths and window size", "One test follows a short sequence.",
  ["goko/src/plugins/discrete/tracker.rs", "goko/src/plugins/discrete/categorical.rs"],
  [("add_path, trim", "goko/src/plugins/discrete/tracker.rs")], [("running_evidence, sequence_queue", "counts and the paths they come from", "goko/src/plugins/discrete/tracker.rs")], ["BayesCategoricalTracker accessors"], None)
SV = ["serve_goko/src/core/internal_service.rs", "serve_goko/src/core/tracker_worker.rs", "serve_goko/src/core/mod.rs", "serve_goko/src/http/service.rs", "serve_goko/src/http/message.rs", "serve_goko/src/http/maker.rs", "serve_goko/src/parsers", "serve_goko/src/api"]
p("C15", "Server trackers are named, isolated and shared by all clients",
  "A point tracked under a name changes that name's trackers, all windows of it and no other; the unnamed trackers are one more such set. Adding a window that exists reports failure and keeps its contents, tracking under a name that was never added and asking for an absent window report the absence and change nothing, and requests from several connections act as if executed one after another on one shared state, each between its being sent and answered. Names and parameters are taken whole: names that differ name different trackers.",
  ["histories", "schedules"], "every sequence of add, track and stats requests over any number of connections", "The tests send one or two requests on one connection.",
  SV, [("single tracker worker fed by a channel", "serve_goko/src/core/tracker_worker.rs")], [("main_tracker, trackers", "unnamed and named tracker sets", "serve_goko/src/core/tracker_worker.rs")], ["CoreReader / TrackerWorker requests, HTTP"], None)
p("C16", "Every server request gets exactly its own answer",
  "For every request the server returns exactly one response and it is the answer to that request: knn, routing knn and path answers equal what the tree answers for the same point (k defaulting to 10), whatever the order and overlap of requests on one or several connections. Unknown routes and methods, missing or unusable parameters and bodies that cannot be parsed are refused with an error, a body counts the same whether it arrives whole or in pieces, and no request, however malformed or abandoned, makes the service stop answering the ones that follow. The load a connection reports is the number of its requests not yet answered or given up.",
  ["inputs", "histories", "schedules"], "every sequence of well and ill formed requests", "The tests send one well formed request per route.",
  SV, [("request/response pairing through a oneshot per message", "serve_goko/src/core/internal_service.rs"), ("in-flight counter", "serve_goko/src/core/internal_service.rs poll_ready")], [("in_flight", "load used for back pressure", "internal_service.rs")], ["tower service interface"], None)
p("C17", "Bulk queries equal the single queries, in order",
  "Each bulk operation returns one result per input, in input order, equal to what the corresponding single operation returns for that input, for every input length (none and one included) and every size of the thread pool; an item that fails does not change the result of another.",
  ["inputs", "schedules"], "every list of queries, including the empty one, and every thread count", "Tests run one bulk call of one length.",
  ["goko/src/query_interface/mod.rs"], [("chunked parallel map with ordered reduction", "goko/src/query_interface/mod.rs BulkInterface")], [], ["BulkInterface"], None)
p("C18", "A glued cloud behaves like the concatenation of its parts",
  "A cloud glued from several sources has as many points as they have together and answers for every index with the point, label, name, meta data, distances, moments and summaries of the row of the source the index belongs to: the sources' rows one after another, or, after re-indexing, the rows the new indexes were given. Indexes it does not have are errors, a re-indexing that names an unknown index is an error and changes nothing, names and indexes map to each other, and a tree over a glued cloud answers as one over the concatenation.",
  ["inputs", "configurations", "histories"], "every split of every cloud into sources (empty ones and none included), every index, every sequence of re-indexings", "The tests use two equal sources, never re-index and never ask for what is not there.",
  ["pointcloud/src/glued_data_cloud.rs"], [("address map index -> (source, local index)", "pointcloud/src/glued_data_cloud.rs HashGluedCloud::{new,reindex}")], [("addresses", "where each index lives", "pointcloud/src/glued_data_cloud.rs")], ["PointCloud interface of HashGluedCloud"], None)
p("C19", "Label summaries count exactly what was added",
  "A summary of a list of indexes counts every labeled one once under its label (categories and strings) or in the count and the two moments (numbers and vectors), every unlabeled one as unlabeled and every failed one as an error; combining summaries equals summarising everything at once, in any order and grouping and when one of them is empty. Merging label sets concatenates them, masked labels staying masked and the others staying visible, and one-hot or binary vectors convert to the category they encode.",
  ["inputs", "histories"], "every label set, mask, list of indexes and sequence of adding, combining and merging", "The tests add a few labels to one summary.",
  ["pointcloud/src/summaries/mod.rs", "pointcloud/src/label_sources/mod.rs", "pointcloud/src/base_traits.rs"], [("Summary::add/combine, SummaryCounter", "pointcloud/src/base_traits.rs, summaries/mod.rs"), ("SmallIntLabels::merge, VecLabels::{one_hot_to_int,binary_to_int}", "pointcloud/src/label_sources/mod.rs")], [], ["LabelSet, Summary, SummaryCounter"], None)
p("C20", "Batched and parallel distances equal the metric, point by point",
  "Every distance a cloud reports (to a query or to an index, however many indexes are asked for and however many threads compute it) is the metric of the two points, in the order asked for, and an index outside the cloud anywhere in the list is an error. The metrics themselves are the Euclidean distance and the sum of absolute differences for every supported storage type and dimension, dense and sparse storage of the same points report the same distances, and dense views, matrices and moments of points hold every coordinate.",
  ["inputs", "schedules"], "every dimension and batch length, around the vector widths and chunk sizes at which the code changes its strategy, every thread count", "The tests use tiny batches, which never reach the parallel branches, and a few dimensions.",
  ["pointcloud/src/base_traits.rs", "pointcloud/src/metrics", "pointcloud/src/points/mod.rs"], [("chunked distance evaluation with a shared error", "pointcloud/src/base_traits.rs distances_to_point"), ("vectorised metrics", "pointcloud/src/metrics")], [], ["PointCloud::{distances_to_point,distances_to_point_index,moment_1,moment_2,points_dense_matrix,point_dense_array}, Metric::dist, PointRef"], None)
p("C21", "Loaders read exactly what the files contain",
  "Clouds loaded from binary data files, label files and CSVs, directly or through a YAML description, hold exactly the rows of the files in the order of the files, each with the label of the same row (negative CSV labels and one-hot rows without a 1 being unlabeled), and nothing beyond. Files that are missing, do not hold whole points, or do not parse are refused instead of being misread, and memory maps are released when the cloud is dropped or converted.",
  ["inputs"], "every set of files and description", "Tests read one fixture, and never a damaged one.",
  ["pointcloud/src/loaders", "pointcloud/src/data_sources"], [("memory maps and csv/yaml parsing", "pointcloud/src/loaders, pointcloud/src/data_sources/memmapf32/unix.rs")], [], ["ram_from_yaml, labeled_ram_from_yaml, vec_labeled_ram_from_yaml, open_memmaps, open_labeled_memmaps, convert_glued_memmap_to_ram"], None)
p("C22", "Divergences and baselines are those of the distributions they describe",
  "The divergence a tracker reports for a node is the Kullback-Leibler divergence between the node's Dirichlet prior (the points below each child and its own) and the posterior given the evidence in the window, zero without evidence, and the statistics over nodes are those of these values; the divergence of the whole tree is that of the posterior from the prior over the nodes paths stop at (one more than the points filed there). Probabilities, log probabilities, divergences, samples and updates of the categorical and Dirichlet distributions of a node are those of their counts; the divergence of categorical distributions is absent where the other one excludes an outcome. Log densities, divergences and samples of a diagonal Gaussian are those of its mean and variance, its divergence is absent where there is no spread. A baseline gives, for a sequence length, the mean and variance over its training sequences at that length, linear in between and beyond, and training visits exactly the lengths asked for.",
  ["inputs", "histories"], "every node, every evidence, every sequence of observations, every length asked for", "The tests compute one divergence of one distribution with itself and one between two fixed ones.",
  ["goko/src/plugins/discrete/dirichlet.rs", "goko/src/plugins/discrete/categorical.rs", "goko/src/plugins/discrete/tracker.rs", "goko/src/plugins/discrete/baseline.rs"],
  [("posterior_kl_divergence, kl_divergence, add_evidence", "goko/src/plugins/discrete/dirichlet.rs, categorical.rs"), ("KLDivergenceBaseline::stats, DirichletBaseline::train", "goko/src/plugins/discrete/baseline.rs")], [], ["all_node_kl, kl_div_stats, Categorical, Dirichlet, KLDivergenceBaseline"], None)
p("C23", "What a tree shows of itself agrees with its nodes",
  "Every view of a tree (through any reader, a clone of one, a layer or a reader made from a layer) shows the nodes that a walk from the root reaches: the layers from the root's scale down to the one below the minimum resolution, each with the number, the centres and the contents of its nodes, the children of each node (none for a leaf, nothing for an address that is not in the tree), the number of nodes, layers and scales. The fractal dimension of a node is the logarithm to the scale base of the number of its children (the nested one included) and outliers, that of a layer the logarithm of the number of children and outliers of its nodes for each node of it; the weighted dimensions count a node by its share of the points of the largest one and an outlier as one point.",
  ["inputs", "configurations"], "every tree, node and layer", "The tests look at a handful of nodes of two fixed trees and never compute a dimension.",
  ["goko/src/covertree/tree.rs", "goko/src/covertree/layer.rs", "goko/src/covertree/node.rs"], [("layers indexed by scale, maps of nodes", "goko/src/covertree/tree.rs CoverTreeReader, layer.rs CoverLayerReader")], [], ["layers, layer, scale_range, node_count, len, get_node_and, get_node_children_and, for_each_node, map_nodes, node_center_indexes, node_fractal_dim, node_weighted_fractal_dim, layer_fractal_dim, layer_weighted_fractal_dim"], None)
p("C24", "A tree made from a YAML description is the tree of its files and parameters",
  "A tree made from a YAML description, with or without labels, is over exactly the rows of the data files it names, in the order of the files, each with the label of the same row, has the parameters the description gives, and is node for node the tree built directly from those rows with those parameters and that seed. A description whose count is not the number of points is refused.",
  ["inputs", "configurations"], "every description: any parameters in any order, any number of files and kind of labels", "The tests read one description of one fixture.",
  ["goko/src/utils.rs", "goko/src/covertree/builders.rs", "pointcloud/src/loaders/yaml_loaders.rs"], [("description -> cloud, builder -> tree", "goko/src/utils.rs cover_tree_from_yaml, cover_tree_from_labeled_yaml")], [], ["cover_tree_from_yaml, cover_tree_from_labeled_yaml"], None)
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
