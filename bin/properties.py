"""What decides each property: the stages check.py runs for it."""
import json


def mc(module, quick, thorough, **kw):
    return dict(kind="mc", module=module, cfg=(quick, thorough), **kw)


def trace(name, cmd, module, cfg, **kw):
    return dict(kind="trace", name=name, cmd=cmd, module=module, cfg=cfg, **kw)


TREE_RULE = ("every sequence of up to 4 points on a short line, shaped sets (identical points, exact powers of the "
             "base, ties, more children than a node stores inline) and seeded random sets in 1-9 dimensions, each with "
             "build parameters drawn at random; non-trivial: the tree has at least two nodes")
MC_BUILD = mc("MCCoverTree.tla", "MCCoverTree_par_quick.cfg", "MCCoverTree_par_thorough.cfg", min_states=10000)
MC_SEARCH = mc("MCCoverTree.tla", "MCCoverTree_seq_quick.cfg", "MCCoverTree_seq_thorough.cfg", min_states=10000)
ASSUME_GRID = ["points have integer coordinates in units of 1/q, so that every distance comparison the code makes in "
               "f32 has the same outcome as the exact comparison of squares in the specification"]


def two_nodes(r):
    return not r.get("ok", False) or len(r["nodes"]) >= 2


def tree(name, cfg):
    return trace(name, "tree-struct", "CoverTreeTrace.tla", cfg, nontrivial=two_nodes, rule=TREE_RULE,
                 min_nontrivial=200)


def query(name, cmd, mode):
    return trace(name, cmd, "CoverQueryTrace.tla", "CoverQueryTrace_%s.cfg" % mode, nontrivial=two_nodes,
                 rule=TREE_RULE + "; queries: dataset points, near misses, mid points, far points, k from 0 to beyond n",
                 min_nontrivial=100)


NOTE_TREE = ("TLC explores the builder specification exhaustively within the config's bounds and judges every tree the "
             "real builder made in this run, node by node, against the same relation. Assurance on the code is over the "
             "cases run; trusted: the harness projection, TLC.")
NOTE_QUERY = ("TLC explores the search over every small tree exhaustively and judges every answer the real code gave in "
              "this run against the specification. Assurance on the code is over the cases run; trusted: the harness "
              "projection, TLC.")
TRACED = "TLA+ specification model checked with TLC; trace validation of the real code against it"
NOT_APPLICABLE = {}

CHECKS = {}


def claim(pid, note, stages, assumptions=(), level="model_checking", technique=TRACED):
    CHECKS[pid] = dict(level=level, technique=technique, note=note, stages=stages, assumptions=list(assumptions))


NOTE_MONO = ("TLC explores the epoch protocol exhaustively (every interleaving of a few readers, refreshes and the drop of "
             "the writer) and judges every recorded history of the real map, run under a controlled scheduler that "
             "switches threads at every atomic access, lock and spin and can delay plain stores, against the abstract map "
             "specification. All schedules with up to 2 (thorough: 3) preemptions of the small programs, random and "
             "priority schedules for the rest. Assurance on the code is over the schedules run; memory orders weaker than "
             "a store buffer are not explored.")
MONO_RULE = ("programs of a writer (insert, update, remove, purge, extend, meta, refresh, flush, drop) and 0-3 readers (all read "
             "methods, clones, nested and panicking reads), each under a seeded schedule, plus all schedules of small programs "
             "with a bounded number of preemptions (one record per distinct history); non-trivial: a read between the start of "
             "the first refresh and the end of the drop")


def overlapping(r):
    seen = False
    for e in r["ev"]:
        if e["e"] == "rfb":
            seen = True
        elif e["e"] == "dre":
            break
        elif e["e"] == "rb" and seen:
            return True
    return False


def mono(name, cmd):
    return trace(name, cmd, "MonoTrace.tla", "MonoTrace.cfg", nontrivial=overlapping, rule=MONO_RULE, min_nontrivial=500,
                 key=lambda r: json.dumps(r["ev"], sort_keys=True))


MC_MONO = [mc("Monomap.tla", "Monomap_quick.cfg", "Monomap_thorough.cfg", min_states=100000),
           mc("Monomap.tla", "Monomap_live_quick.cfg", "Monomap_live_thorough.cfg", min_states=10000)]
claim("C01", NOTE_MONO, [mono("snapshots", "mono-snap")] + MC_MONO[:1])
claim("C02", NOTE_MONO, [mono("held-reads", "mono-hold")] + MC_MONO)
claim("C03", NOTE_MONO, [trace("behaviours", "mono-gen", "MonoTrace.tla", "MonoTrace.cfg", gen=("GenMono.tla", "GenMono_quick.cfg", "GenMono_thorough.cfg"),
                               nontrivial=lambda r: any(e["e"] == "op" for e in r["ev"]), min_programs=5000, min_nontrivial=5000,
                               rule="every sequence of 4 (thorough: 5) operations of the writer on two keys, read after every step; non-trivial: the map is written"),
                         mono("operations", "mono-ops"), mono("snapshots", "mono-snap")] + MC_MONO[:1])
claim("C04", NOTE_TREE, [tree("structure", "CoverTreeTrace_C04.cfg"), MC_BUILD], ASSUME_GRID)
claim("C05", NOTE_TREE, [tree("cover", "CoverTreeTrace_C05.cfg"), MC_BUILD], ASSUME_GRID)
claim("C06", NOTE_TREE, [tree("parameters", "CoverTreeTrace_C06.cfg"), MC_BUILD], ASSUME_GRID)
claim("C07", "TLC explores every interleaving of the pool and the collector with seeded choices and with failing splits: the "
      "tree is always the sequential one, every build returns, a failure is never lost. The real builder is run on each "
      "problem in processes with 1 to 16 pool threads, alone and two at a time, and over clouds that fail at a chosen point or access; TLC compares "
      "the outcomes. The schedules of the real pool are sampled, not controlled.",
      [trace("builds", "build-det", "BuildTrace.tla", "BuildTrace.cfg", nontrivial=lambda r: r["n"] >= 2,
             rule="shaped and seeded random problems, each built at least 8 times; non-trivial: at least two points", min_nontrivial=100),
       mc("MCBuild.tla", "MCBuild_det_quick.cfg", "MCBuild_det_thorough.cfg", min_states=10000),
       mc("MCBuild.tla", "MCBuild_fail_quick.cfg", "MCBuild_fail_thorough.cfg", min_states=10000)],
      ["build is called from outside the rayon pool, over points at finite distances, with a base above 1"])
claim("C08", NOTE_QUERY, [query("knn", "tree-knn", "knn"), MC_SEARCH], ASSUME_GRID)
claim("C09", NOTE_QUERY, [query("routing", "tree-knn", "rknn"), MC_SEARCH], ASSUME_GRID)
claim("C10", NOTE_QUERY, [query("path", "tree-path", "path"), MC_SEARCH], ASSUME_GRID)
claim("C11", "TLC explores saving and loading in every order for every tree the builder makes on small problems, and judges every tree the real "
      "code saved and loaded in this run: structure, parameters, homes and answers before, after, and after a second round. Trusted: "
      "the harness projection, TLC.",
      [trace("save-load", "io-save", "PersistTrace.tla", "PersistTrace.cfg",
             nontrivial=lambda r: not r["ok"] or len(r["img"][0]["nodes"]) >= 2,
             rule="shaped and random trees saved, loaded, saved again (over stale files too); non-trivial: at least two nodes",
             min_nontrivial=100),
       mc("MCPersist.tla", "MCPersist_quick.cfg", "MCPersist_thorough.cfg", min_states=10000)], ASSUME_GRID)
claim("C17", "TLC explores every order in which a pool can map the chunks of every short input, and judges every bulk query the real code ran "
      "in this run, for lengths around the chunk size, pools of 1 to 8 threads, indexes that do not exist, points that cannot be read "
      "and arrays in every memory layout, item by item against the single query. Pool schedules of the real code are sampled.",
      [trace("bulk", "bulk", "BulkTrace.tla", "BulkTrace.cfg", nontrivial=lambda r: r["len"] >= 1,
             rule="random trees, lists of 0 to 1001 inputs, all bulk operations; non-trivial: at least one input", min_nontrivial=80),
       mc("Bulk.tla", "Bulk_quick.cfg", "Bulk_thorough.cfg", min_states=1000)])

NOTE_CLOUD = ("TLC explores the code's way of doing this on every small instance and judges every answer the real code gave in this run "
              "against the definition. Assurance on the code is over the cases run; trusted: the harness projection, TLC.")
ASSUME_INT = ["values are integers small enough for f32 arithmetic on them to be exact, so that results are compared exactly"]
claim("C18", NOTE_CLOUD,
      [trace("glue", "glue", "CloudsTrace.tla", "CloudsTrace.cfg", nontrivial=lambda r: len([s for s in r["src"] if s]) >= 2,
             rule="clouds cut into 0 to 24 sources (empty ones and ones of 300 rows too, with labels, names and meta data), re-indexed 0 to several times with good and bad maps, every "
                  "point, name, list and a knn query asked; non-trivial: at least two sources with points", min_nontrivial=100),
       mc("MCClouds.tla", "MCClouds_quick.cfg", "MCClouds_thorough.cfg", min_states=10000)], ASSUME_INT)
claim("C19", NOTE_CLOUD,
      [trace("labels", "labels", "LabelsTrace.tla", "LabelsTrace.cfg", nontrivial=lambda r: not r["ok"] or len(r.get("labs", r.get("sets", []))) >= 1,
             rule="label sets of every kind with every kind of mask, short programs of add, combine, summarise on three registers, chains "
                  "of merges, conversions, values in several units; non-trivial: at least one label", min_nontrivial=400),
       trace("behaviours", "labels-gen", "LabelsTrace.tla", "LabelsTrace.cfg", gen=("GenLabels.tla", "GenLabels_quick.cfg", "GenLabels_thorough.cfg"),
             nontrivial=lambda r: not r["ok"] or any(o["op"] == "comb" for o in r.get("ops", [])) or len(r.get("sets", [])) >= 2, min_programs=2500, min_nontrivial=3000,
             rule="every program of 3 (thorough: 4) operations on two summaries of each of five kinds, every chain of 2 (thorough: 3) short label "
                  "sets with every mask; non-trivial: something is combined or merged"),
       mc("MCLabels.tla", "MCLabels_quick.cfg", "MCLabels_thorough.cfg", min_states=10000)], ASSUME_INT)
claim("C20", NOTE_CLOUD + " The schedules of the real pool are sampled.",
      [trace("distances", "dist", "DistTrace.tla", "DistTrace.cfg", nontrivial=lambda r: not r["ok"] or r["kind"] == "metric" or len(r["list"]) >= 1,
             rule="every storage type in dimensions 1 to 36 and some larger, batches of lengths around multiples of the chunk size in "
                  "dimensions up to 400000, pools of 1 to 8 threads, unknown indexes; non-trivial: at least one distance", min_nontrivial=500),
       mc("MCDistances.tla", "MCDistances_quick.cfg", "MCDistances_thorough.cfg", min_states=10000)], ASSUME_INT)
claim("C21", NOTE_CLOUD,
      [trace("load", "load", "LoadTrace.tla", "LoadTrace.cfg", nontrivial=lambda r: True,
             rule="1 to 14 data files with label files of every kind (plain and compressed CSV), read by every loader, half of them damaged in one "
                  "of six ways", min_nontrivial=300),
       mc("MCLoaders.tla", "MCLoaders_quick.cfg", "MCLoaders_thorough.cfg", min_states=10000)], ASSUME_INT)


NOTE_RUN = "Assurance on the code is over the cases run; trusted: the harness projection, TLC."
PLUG_RULE = ("shaped and random trees with up to 6 plugins attached in random orders, and programs on Gaussians; non-trivial: at least two "
             "nodes, or a program on a Gaussian")


def during(r):
    """A node read overlaps an attachment."""
    attaching = False
    for e in r["ev"]:
        if e["e"] in ("ab", "ae"):
            attaching = e["e"] == "ab"
        elif attaching and e["e"] == "e" and e["seen"]["t"] == "nodes":
            return True
    return False


claim("C12", "TLC explores every order of building node summaries bottom up on small trees and judges the plugins of every node of every tree "
      "the real code made in this run, after every attachment, against the points below it. " + NOTE_RUN,
      [trace("summaries", "plug", "PlugTrace.tla", "PlugTrace.cfg",
             nontrivial=lambda r: not r["ok"] or r["kind"] == "gauss" or len(r["nodes"]) >= 2, rule=PLUG_RULE, min_nontrivial=300),
       mc("MCPlugins.tla", "MCPlugins_quick.cfg", "MCPlugins_thorough.cfg", min_states=10000)], ASSUME_INT)
claim("C13", "TLC explores attaching plugins layer by layer with readers at every moment on small trees, and judges every recorded history of the "
      "real tree, whose readers run under a controlled scheduler that can switch at every atomic access of the map below. Schedules are seeded "
      "random and priority schedules. " + NOTE_RUN,
      [trace("attaching", "plug-pub", "PlugPubTrace.tla", "PlugPubTrace.cfg", nontrivial=during,
             rule="random trees, 1 to 4 attachments, 1 to 3 readers reading nodes, layers, the tree's plugins, paths and neighbours, each under a seeded "
                  "schedule; non-trivial: a node is read during an attachment", min_nontrivial=300),
       mc("MCPlugins.tla", "MCPlugins_quick.cfg", "MCPlugins_thorough.cfg", min_states=10000)])
TRACK_RULE = ("random trees, programs of up to 13 steps on two trackers (adding paths, appending one to the other) with windows 0 to 5, "
              "everything observable asked along the way")
claim("C14", "TLC explores running counts with windows and appending for every short program on a small tree, and judges everything the real "
      "trackers reported in this run against the paths in the window. " + NOTE_RUN,
      [trace("windows", "track", "TrackTrace.tla", "TrackTrace_state.cfg", nontrivial=lambda r: not r["ok"] or (r["kind"] == "track" and len(r["nodes"]) >= 2),
             rule=TRACK_RULE + "; non-trivial: at least two nodes", min_nontrivial=300),
       trace("behaviours", "track-gen", "TrackTrace.tla", "TrackTrace_state.cfg", gen=("GenTracker.tla", "GenTracker_quick.cfg", "GenTracker_thorough.cfg"),
             nontrivial=lambda r: not r["ok"] or len(r["nodes"]) >= 2, min_programs=5000, min_nontrivial=3000,
             rule="every behaviour of the specification of up to 3 (thorough: 4) steps on two trackers with windows 0 to 2, each replayed on one of 12 "
                  "small trees; non-trivial: at least two nodes"),
       mc("MCTracker.tla", "MCTracker_quick.cfg", "MCTracker_thorough.cfg", min_states=10000)])
claim("C22", "TLC explores the divergence as the code sums it for every small prior and evidence, and judges every divergence, probability, "
      "statistic, sample and baseline the real code reported in this run against the definition, in millionths. " + NOTE_RUN,
      [trace("divergences", "track", "TrackTrace.tla", "TrackTrace_kl.cfg", nontrivial=lambda r: not r["ok"] or r["kind"] != "track" or len(r["nodes"]) >= 2,
             rule=TRACK_RULE + "; the distributions of a node of each tree; baselines trained on trees and made by hand; non-trivial: not a tree of one node",
             min_nontrivial=500),
       mc("MCDivergence.tla", "MCDivergence_quick.cfg", "MCDivergence_thorough.cfg", min_states=3000)],
      ["divergences are compared within 0.0002, probabilities within 0.000003"])
SERVE_RULE = ("random trees served to 1 to 3 connections (in process on one and on three threads, and over a socket), up to 30 requests of every "
              "route, well and ill formed, whole and in pieces, pipelined, polled early and abandoned, one connection sometimes stalled")


def stateful(r):
    return not r["ok"] or sum(1 for o in r["ops"] if o["p"].startswith("/track")) >= 3


SERVE_GEN_RULE = ("every sequence of 3 (thorough: 4) tracking requests (trackers with and without a name, windows 0 and 1, two points) on two connections in "
                  "turn, then the statistics of every window; a small random tree for each; non-trivial: at least three tracking requests")
claim("C15", "TLC explores the connection workers, the tracker workers and their channels with every interleaving of a few requests (some of "
      "which panic in a worker or are abandoned), and checks for every history recorded from the real server that the tracking requests "
      "can be ordered, each between its call and its answer, so that every answer is the one of the specified shared state. Schedules of the "
      "real server are seeded (one thread) or sampled. " + NOTE_RUN,
      [trace("tracking", "serve", "ServerTrace.tla", "ServerTrace_state.cfg", crate="gvs", nontrivial=stateful,
             rule=SERVE_RULE + "; non-trivial: at least three tracking requests", min_nontrivial=500),
       trace("behaviours", "serve-gen", "ServerTrace.tla", "ServerTrace_state.cfg", crate="gvs", gen=("GenServer.tla", "GenServer_quick.cfg", "GenServer_thorough.cfg"),
             nontrivial=stateful, min_programs=1000, min_nontrivial=1000, rule=SERVE_GEN_RULE),
       mc("MCServer.tla", "MCServer_quick.cfg", "MCServer_thorough.cfg", min_states=10000)],
      ["statistics are compared within 0.0002 per node visited"])
claim("C16", "TLC explores the connection workers, the tracker workers and their channels with every interleaving of a few requests, safety and "
      "that every request is answered, and judges every answer and every reported load of the real server in this run against what the tree "
      "answers and which requests are outstanding. Schedules of the real server are seeded (one thread) or sampled. " + NOTE_RUN,
      [trace("answers", "serve", "ServerTrace.tla", "ServerTrace_answers.cfg", crate="gvs", nontrivial=lambda r: not r["ok"] or len(r["ops"]) >= 2,
             rule=SERVE_RULE + "; non-trivial: at least two requests", min_nontrivial=500),
       mc("MCServer.tla", "MCServer_live_quick.cfg", "MCServer_live_thorough.cfg", min_states=1000)])

claim("C23", "TLC explores the walk over a layer in every order on every small tree, and judges everything the real trees of this run show of "
      "themselves (by layer, by node, by clones of readers) against the nodes found by walking from the root. " + NOTE_RUN,
      [trace("views", "views", "ViewsTrace.tla", "ViewsTrace.cfg", nontrivial=lambda r: not r["ok"] or len(r["nodes"]) >= 2,
             rule="all small line and grid clouds, shaped, random, medium and large clouds; every node, every layer; non-trivial: at least two nodes",
             min_nontrivial=200),
       mc("MCViews.tla", "MCViews_quick.cfg", "MCViews_thorough.cfg", min_states=10000)],
      ["dimensions are compared as the counts they are logarithms of, within 0.1 percent"])
claim("C24", "TLC judges every tree the real code made from a description in this run against the rows and labels of the files, the parameters "
      "of the description and the tree built by hand from them, and explores the reading of files on every small instance. " + NOTE_RUN,
      [trace("described", "described", "DescribedTrace.tla", "DescribedTrace.cfg", nontrivial=lambda r: not r["ok"] or (r["got"] and len(r["got"][0]["tree"]["nodes"]) >= 2),
             rule="random data in 1 to 3 files, with and without labels (CSV, one-hot), random parameters in random order, right, wrong and missing "
                  "counts; non-trivial: a tree of at least two nodes", min_nontrivial=60),
       mc("MCLoaders.tla", "MCLoaders_quick.cfg", "MCLoaders_thorough.cfg", min_states=10000)], ASSUME_GRID)
