#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

IMG, DB, KD = "src/image.rs", "src/math/clustering/dbscan/algorithm.rs", "src/math/neighbors/kdtree/mod.rs"
EX = ["ImageData::extract", "Vec<Swatch<F>>"]

prop("C01", "Extraction is reproducible",
 "Extracting a palette from the same pixels, width, height and float precision always returns the identical list of swatches: same colours, same positions, same shares, same order. Nothing else may influence it: not the process, the thread, hash seeds or other entropy, the clock, the number of CPUs, memory addresses or memory contents, nor any calls made earlier, including calls that failed.",
 ["inputs", "histories", "configurations", "fault_sequences"],
 "every image, every environment (entropy, clock, CPU count, allocator), every history of earlier calls on the same or other images",
 "The only end-to-end test runs one image once, under whatever hash seed the process got, and asserts nothing; no test repeats a call, varies the hash seed, or has a history.",
 [IMG, DB, "src/swatch.rs"],
 [("clusters numbered in scan order of the pixels", DB), ("stable sort of the swatches by share", IMG)], EX,
 None, [("per-group tables", "randomly seeded hash tables keyed by group number", DB)])

prop("C02", "A swatch's colour, position and share all describe the same group of pixels",
 "Every swatch describes one dense group of pixels: its colour is the sRGB colour (channels limited to 0..255, rounded) of the mean CIELAB colour of the group, its position is the mean pixel location of the group (column, row; rounded down), and its share is the group's pixel count divided by the image's pixel count. The three never come from different groups, whatever the hash seeds, interleaving or earlier calls, in either float precision.",
 ["inputs", "schedules", "configurations", "histories"],
 "every image with any number of groups, both precisions, every hash seed, every interleaving with other callers",
 "With two or more groups the pairing passes through randomly seeded tables, so a sampled run can be right by luck; the one end-to-end test makes no assertion.",
 [IMG, DB, "src/color/lab.rs", "src/color/xyz.rs", "src/color/rgba.rs"],
 [("centroid accumulation and member lists keyed by the same group number", DB), ("joining centroid and count into a swatch", IMG)], EX)

prop("C03", "Shares conserve the pixels and the palette is ordered by share",
 "Every swatch's share is a positive whole number of pixels divided by the total number of pixels of the image, every pixel counts in at most one swatch whatever its alpha, and the shares together account for exactly the pixels that are not noise (so they never exceed 1). The list is in ascending order of share and every position lies inside the image.",
 ["inputs", "schedules", "configurations", "histories"],
 "every image, both precisions, every hash seed and interleaving",
 "Counts are accumulated over all pixels and all groups; no test adds the shares up or checks their order.",
 [IMG, DB, "src/swatch.rs"], [("one label per pixel", DB), ("sort of swatches", "src/swatch.rs")], EX)

prop("C04", "Exactly one swatch per dense group of pixels, none for noise",
 "Let pixels live in the space (L/100, a/255, b/255, column/width, row/height): a pixel with at least 25 pixels (itself included) within distance 0.025 is dense, dense pixels within 0.025 of each other belong to the same group, a pixel that is not dense belongs to one of the groups that has a dense pixel within 0.025 of it, and any other pixel is noise. An extraction returns exactly one swatch per group with exactly that group's number of pixels (a pixel in reach of several groups may count in any one of them), independent of scan order effects, hash seeds, interleavings and earlier calls.",
 ["inputs", "schedules", "configurations", "histories"],
 "every well-formed image, both precisions, every hash seed, interleaving and history",
 "One 16-point dataset checks the clustering and one photo is run without assertions; chains, touching groups, noise later absorbed and border pixels are never sampled at the palette level.",
 [DB, IMG, KD], [("cluster expansion", DB), ("radius search", KD)], EX)

prop("C05", "Concurrent callers do not affect each other",
 "Any number of threads may extract palettes at the same time, from the same image object, from shared pixel buffers or from different ones, in either precision: each call returns exactly what it would return if it ran alone. A call that fails (for instance on a buffer that ends in the middle of a pixel) or is delayed at any point changes nothing for any other call, running or later.",
 ["schedules", "histories", "fault_sequences", "inputs"],
 "every interleaving of concurrent calls at basic-block granularity, every placement of failing and stalled calls",
 "No test runs two extractions concurrently or after a failed one.",
 [IMG, DB, KD], [("no shared mutable state between calls; borrowed input only", IMG)], EX)

prop("C06", "Extraction of a well-formed image always completes",
 "For every buffer of exactly width*height RGBA pixels, any colours, any alpha, including an empty image and a single pixel, extraction returns normally: it never panics, overflows the stack, deadlocks or loops. It finishes within a number of its own execution steps bounded by a fixed polynomial of the number of pixels, and it never has to wait for another caller that is stalled.",
 ["inputs", "schedules", "fault_sequences"],
 "every well-formed image, every placement of stalled, failed and concurrent callers",
 "The test image's group averages all lie inside the sRGB gamut and it is run alone; averages outside the gamut, degenerate sizes and stalled neighbours are not sampled.",
 [IMG, DB, "src/color/rgba.rs"], [("conversion of mean colours to 8-bit channels", "src/color/rgba.rs"), ("work queue of the group expansion", DB)], EX)

prop("C07", "Running out of memory never yields a wrong palette",
 "If memory allocation starts to fail, once or persistently, at any point of an extraction, the call either fails visibly (abort or panic) or returns exactly the palette of the fault-free run. It never returns a different, shortened or empty palette as if it had succeeded, and it never hangs or corrupts memory.",
 ["fault_sequences", "inputs"],
 "every allocation made during an extraction chosen as the first to fail, one-shot, persistent, or only for large requests",
 "No test injects allocation failures.",
 [IMG, DB, KD], [("infallible allocation everywhere (process aborts)", IMG)], EX)

KI, KA = "src/math/clustering/kmeans/init.rs", "src/math/clustering/kmeans/algorithm.rs"
HK = "guarded in-crate entry points (cfg auto_palette_dst) because the component is crate-private"
prop("C08", "K-means seeding picks distinct samples for every random stream",
 "For every dataset of n samples, every k and every sequence the random source may produce, both seeding strategies (random and k-means++) return exactly min(k, n) seeds, each of them one of the samples, and never use the same sample twice (equal samples may each be used once). Seeding terminates within a bounded number of draws once the random source behaves uniformly, even after it was stuck or biased for a while.",
 ["inputs", "schedules", "fault_sequences"],
 "every dataset (duplicates included), k, metric and random stream, including stuck, biased and failing-then-recovering sources",
 "The two tests use k=2 on five samples with an unseeded generator and only check the number of seeds.",
 [KI], [("bookkeeping of already selected samples", KI)], ["seed list of the k-means initialiser"], HK)

prop("C09", "K-means++ spreads its seeds",
 "For every dataset of more than k samples and every random stream, the k-means++ strategy lets the random source choose its first seed (any sample can come first), and every further seed is a sample that is at least as far (in the chosen metric) from its nearest already chosen seed as every other not yet chosen sample is from its own.",
 ["inputs", "schedules"],
 "every dataset, k, metric and every first draw",
 "The only test checks the number of seeds.",
 [KI], [("furthest-sample selection", KI)], ["seed list of the k-means initialiser"], HK)

prop("C10", "K-means accounts for every sample",
 "For every dataset, k, metric, tolerance, iteration limit of at least one and random stream, a k-means fit reports exactly min(k, n) clusters whose sizes add up to the number of samples, with each non-empty cluster's centroid equal to the mean of the samples assigned to it (so the size-weighted centroids add up to the sum of the samples). Every reported centroid, also that of an empty cluster, lies within the bounding box of the samples.",
 ["inputs", "schedules", "fault_sequences"],
 "every dataset (duplicates, k>=n, tiny scales), parameters and random stream",
 "The only fit test discards the result.",
 [KA, "src/math/clustering/kmeans/cluster.rs"], [("assign to the nearest centroid, then recompute means", KA)], ["centroids and sizes of a fit"], HK)

prop("C11", "K-means is Lloyd's iteration run until it settles",
 "For every random stream, starting from the seeds it picked, a fit repeats 'assign every sample to its nearest centroid, then move each centroid to the mean of its samples (a centroid without samples stays where it is)'. It stops after the first round in which every centroid moved by less than the tolerance (measured in the chosen metric), or at the iteration limit, whichever comes first, and reports the centroids and sizes of that round; zero iterations reports the seeds.",
 ["inputs", "schedules"],
 "every dataset without ties, metric, tolerance, iteration limit and random stream",
 "The only fit test discards the result; nearest-centroid errors and premature stopping are invisible to it.",
 [KA, "src/math/clustering/kmeans/cluster.rs", KD], [("convergence test", KA), ("nearest-centroid search", KD)], ["centroids and sizes of a fit"], HK)

prop("C12", "K-means is repeatable for a given random stream",
 "Seeding or fitting again with the same dataset, the same parameters and a random source in the same state gives the identical result, whatever the hash seeds, other threads, interleavings and earlier fits. A fit that is cut short because its random source fails leaves nothing behind: later fits with a working source give the same result as if it had never run.",
 ["histories", "schedules", "fault_sequences"],
 "every history of fits, every interleaving of concurrent fits, every point of failure of the random source",
 "Tests use an unseeded generator once and never compare results.",
 [KA, KI, "src/math/clustering/kmeans/params.rs"], [("parameters are read-only; the generator is cloned per fit", KI)], ["seeds, centroids and sizes"], HK)

MST, HC = "src/math/graph/spanning_tree.rs", "src/math/clustering/hierarchical/algorithm.rs"
prop("C13", "The spanning tree is minimal, complete and repeatable",
 "For every set of n vertices and every symmetric finite weight callback, the spanning tree has exactly n-1 edges that connect all vertices, each edge carries the weight the callback gives for its two ends, the reported total is the sum of the edges' weights, and no spanning tree has a smaller total. The result is the same for every hash seed and interleaving, the callback is only asked about two different existing vertices, and a callback that fails midway leaves nothing behind that affects later builds.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "every weight function (ties, zero, negative weights), hash seed, interleaving at callback granularity, and callback failure point",
 "One 4-vertex example.",
 [MST, "src/math/graph/edge.rs"], [("attached set (randomly seeded hash set) and candidate heap", MST)], ["edges and total weight"], HK)

prop("C14", "Hierarchical partition splits every sample into exactly k linkage groups",
 "For every dataset of n >= 1 samples, symmetric finite weight callback and 1 <= k <= n, partitioning the hierarchy labels every sample with one of exactly k labels 0..k-1, each used at least once, and the k groups are the connected components left after removing the k-1 heaviest edges of a minimum spanning tree. Partitions are nested as k grows, and the result is the same for every hash seed, interleaving, and history of earlier or failed fits.",
 ["inputs", "schedules", "fault_sequences", "histories"],
 "every weight function, k, hash seed, interleaving and callback failure point",
 "One 6-point example with four values of k.",
 [HC, "src/math/clustering/hierarchical/union_find.rs", MST], [("union-find merge order", HC), ("splitting the latest merges first", HC)], ["labels of a partition"], HK)

prop("C15", "Density clustering is correct for every radius, density and metric",
 "For every point set in two, three or five dimensions, every radius, minimum density of at least one and either metric, density clustering reports one cluster per connected set of dense points, with every cluster's size and mean reported for that same cluster, and lists as outliers, in ascending order and once each, exactly the points out of reach of every dense point. Points in reach of several clusters count in exactly one; the result is the same for every hash seed, interleaving and history.",
 ["inputs", "schedules", "configurations", "histories"],
 "every point set, radius, density, metric, precision, hash seed and interleaving",
 "One 16-point set with one parameter choice, and sizes are never compared with means.",
 [DB, KD], [("cluster expansion", DB), ("radius search", KD)], ["centroids, sizes and outliers of a fit"], HK)

prop("C16", "Tree-based neighbour search equals exhaustive search",
 "For every point set, query, k and radius, in either metric, the tree-based nearest-neighbour and radius searches return the same neighbours at the same distances as comparing the query with every point.",
 ["inputs"], "every point set, query, k, radius and metric",
 "Two small fixed datasets, and only combinations for which pruning happens to be harmless.",
 [KD, "src/math/neighbors/linear.rs"], [("pruning by splitting plane", KD)], ["neighbour lists"], HK)
prop("C17", "Colour conversion round-trips",
 "Converting any 8-bit sRGB colour to CIE XYZ, on to CIELAB and back gives the same 8-bit colour, every conversion stays inside its documented component ranges, and alpha never influences a colour.",
 ["inputs"], "all 2^24 colours, both precisions",
 "Five colours are converted one way or the other.",
 ["src/color/lab.rs", "src/color/xyz.rs", "src/color/rgba.rs"], [("conversion formulas and clamping", "src/color/xyz.rs")], ["converted components"], HK)
prop("C18", "Core distances are k-th nearest neighbour distances",
 "For every dataset and neighbour count, the core distance of each point is its distance to the nearest point such that at least that many other points (or all of them) are no further away.",
 ["inputs"], "every dataset, neighbour count and metric",
 "One 6-point dataset.",
 ["src/math/clustering/hdbscan/core_distance.rs", KD], [("k-nearest search per point", KD)], ["core distance per point"], HK)

prop("C19", "Extraction gives back the memory and threads it took",
 "Once an extraction has returned and its palette has been dropped, or the call has failed, everything it took is given back: the memory that remains allocated does not keep growing with the number of calls made, whether the same or always different images are extracted, by one or by several callers, successfully or not, and no thread that it started is still running. While it runs, an extraction of n pixels never holds more than one MiB plus one KiB per pixel of allocated memory.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every image, every history of calls including failing ones, every interleaving of several callers, every allocator behaviour",
 "No test looks at memory; one extraction of one image can neither show growth over a history nor how the amount scales.",
 [IMG, DB, KD], [("owned buffers dropped at the end of the call or by unwinding", IMG), ("neighbour queue of a growing cluster holds every pixel a bounded number of times", DB)], ["memory allocated after a call", "memory allocated at once", "threads"],
 None)
prop("C20", "Extraction has no effect besides the value it returns",
 "Apart from the palette it returns, or the panic with which it rejects malformed input, an extraction changes nothing the rest of the program could notice: it does not write to standard output or error, to files or sockets, starts no processes, and leaves the caller's pixels, the environment variables, the working directory, signal handlers, the panic hook and the floating-point mode as they were; whatever the image, the environment, the interleaving or the calls made before.",
 ["inputs", "histories", "schedules", "configurations"],
 "every image, environment (including output devices that fail), history of calls and interleaving of several callers",
 "Tests capture output and look at no global state; an effect may need a particular image, history or environment.",
 [IMG, DB, "src/swatch.rs"], [("pure computation on borrowed pixels", IMG)], ["system calls of an extraction", "process-wide state after it"],
 None)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
