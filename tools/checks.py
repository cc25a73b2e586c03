"""What each check runs: configuration, executable, suites with the number of
cases of a quick run.  A thorough run does THOROUGH_FACTOR times as many."""
THOROUGH_FACTOR = 30

def run(exe, suites, cfg="asan", **more):
    return {"cfg": cfg, "exe": exe, "suites": suites, **more}

CHECKS = {
"C02": dict(
    runs=[run("c02", dict(binary=60000, inplace=40000, powers=20000, pow_special=20000, unary=60000, specials=40000))],
    technique="differential monitor: dual-number/finite-precision oracle on every element function, under ASan+UBSan",
    rule="random values with variances (moderate, tiny, special) for each function, operand order and mixture of with/without variance; non-trivial: at least one operand has a variance"),
"C03": dict(
    runs=[run("c03", dict(int_division=60000, float_division=60000, powers=40000, spacing=60000, misc=40000))],
    technique="differential monitor against 128-bit/long double arithmetic, under ASan+UBSan",
    rule="operands biased to extremes, powers of two and sign changes; arrays of all lengths, regular or with one planted irregularity; non-trivial: the helper was called with operands for which the exact answer exists"),
}
CHECKS["C01"] = dict(
    runs=[run("c01", dict(builtin=8, history=3000)),
          run("c01", dict(concurrent=8000), cfg="tsan"),
          run("c01", dict(exhaustion=1), shards=1, factor=1)],
    parallel=4,
    technique="race detector plus offline check of the merged log of label events from racing threads; model-based history check",
    rule="histories of label texts (built-in, near misses, bytes, long) on one thread, and 2-8 threads racing on first uses of fresh texts; non-trivial: distinct sequences of texts, resp. distinct registration orders observed",
    min_observed={"concurrent-labels": 20000, "labels-made": 10000})
CHECKS["C04"] = dict(
    runs=[run("c04", dict(composition=20000, views=20000, overlap=30000, dense=20000, binned=25000))],
    technique="model-based traversal monitor: recorded element addresses compared with naive nested loops, under ASan+UBSan",
    rule="random shapes up to 8 dims (sizes 0 and 1 included), strides of slices/transposes/broadcasts, 1-5 operands, bins with gaps, permutation and emptiness; non-trivial: distinct layout descriptions traversed",
    min_observed={"dense-elements": 100000, "binned-elements": 50000, "too-many-dimensions": 50, "bin-size-mismatch-refused": 20})
CHECKS["C05"] = dict(
    runs=[run("c05", dict(trivial=20000, objects=16000, tracked=16000, conversion=8000))],
    technique="model-based history monitor with self-accounting elements and injected copy failures, under ASan+LSan+UBSan",
    rule="random operation histories over three buffers incl. self-assignment, moves, unset/empty, large parallel copies; non-trivial: distinct histories",
    min_observed={"operations": 100000, "failed-copies": 200})
CHECKS["C06"] = dict(
    runs=[run("c06", dict(single=16000, pairs=10000, triples=3000, vectors=8000))],
    technique="differential monitor against independently composed long-double maps for every pair and triple of kinds, under ASan+UBSan",
    rule="random well-conditioned non-commuting transformations of each kind; non-trivial: every pair/triple of kinds with distinct parameters",
    min_observed={"products": 10000, "triples": 10000})
CHECKS["C07"] = dict(
    runs=[run("c07", dict(histories=6000, pairs=20000, construction=10000, slices=12000, edges=15000))],
    technique="model-based history monitor against an ordered label/length list, under ASan+UBSan",
    rule="random histories of valid and invalid requests on up to 9 labels (beyond inline storage), pairs of shapes with agreeing, clashing and reordered labels; non-trivial: distinct histories/pairs",
    min_observed={"operations": 50000, "refused": 5000, "merges": 3000})
CHECKS["C09"] = dict(
    runs=[run("c09", dict(binary=60000, unary=30000, scan=30000, edge_ranges=15000))],
    technique="differential monitor against dense integer vectors on exactly sized memory, under ASan+UBSan",
    rule="random offsets, lengths (incl. empty), contents, nested/disjoint/touching/self-aliased operands, chains of scans; non-trivial: distinct operands",
    min_observed={"rows-compared": 200000, "scan-steps": 20000})
CHECKS["C08"] = dict(
    runs=[run("c08", dict(dims=5000, strings=5000, initializers=3000))],
    technique="model-based history monitor against an insertion-ordered list, with live iterators, under ASan+UBSan",
    rule="random histories over 7 keys (insert, replace, self-referencing insert/erase, extract, clear, reserve, copy, move) with up to 4 iterators of 7 kinds kept across changes; non-trivial: distinct histories",
    min_observed={"operations": 50000, "stale-refused": 2000, "live-reads": 5000})
CHECKS["C11"] = dict(
    runs=[run("c11", dict(unary=10000, binary=14000, many=4000, binned=12000))],
    technique="differential monitor: every result element against the same operation on 0-D copies of the raw operand elements, under ASan+UBSan",
    rule="all element-wise operations on random shapes, layouts (slices, strides, transposes, broadcasts), types, variances, dense and binned; non-trivial: distinct accepted operand descriptions",
    min_observed={"elements-compared": 50000, "bins-compared": 10000, "refused-variances": 200})
CHECKS["C12"] = dict(
    runs=[run("c12", dict(dense=20000, out_argument=12000, assignment=12000, binned=12000, arrays=10000, datasets=6000, collections=8000))],
    technique="differential monitor with whole-buffer snapshots: every element inside and outside the target, on success and on failure, under ASan+UBSan",
    rule="in-place operators, output arguments and slice assignments on random layouts, targets and operands that overlap in one buffer, ill-fitting operands of every kind, arrays and datasets incl. self-referencing; non-trivial: distinct operand descriptions",
    min_observed={"aliased": 3000, "failed": 2000, "outside-checked": 20000, "array-failed": 500, "dataset-failed": 300, "set-failed": 500, "binned-same-buffer": 100})
CHECKS["C10"] = dict(
    runs=[run("c10", dict(algebra=2500, operations=2500, powers=6000, reductions=4000, conversion=20000, kernel=100000, angles=3000, refusals=2500, arrays=2500))],
    technique="differential monitor: dimensional analysis on exponent vectors and exact 128-bit rational arithmetic, under ASan+UBSan",
    rule="random histories of unit arithmetic up to the limits of every exponent; all element-wise operations, powers and reductions with fitting and clashing units; conversions between units with rational factors for values up to the limits of each type, dense and binned; non-trivial: distinct operations, operands and factors",
    min_observed={"unit-operations": 10000, "unit-refused": 500, "operations-refused": 2000, "operations-accepted": 2000, "integers-exact": 10000, "integers-saturated": 200, "conversions-refused": 300})
CHECKS["C13"] = dict(
    runs=[run("c13", dict(variables=8000, arrays=5000, datasets=2500, bins=6000))],
    technique="model-based history monitor: views as cell lists of a root array, every write mirrored and every view and copy compared, under ASan+UBSan",
    rule="random trees of slices, strides, transposes, renames, folds, broadcasts, element views, shallow and deep copies of variables, arrays, datasets and bins, with writes of every kind through every view; non-trivial: distinct histories",
    min_observed={"cells-compared": 500000, "writes": 20000, "refused": 3000, "deep-copies": 1000, "slices": 2000, "writes-seen": 10000})
CHECKS["C14"] = dict(
    runs=[run("c14", dict(dense=14000, refusals=1500, large=320, arrays=7000, datasets=2500, binned=6000)),
          run("c14", dict(infinite_max=1, infinite_min=1, infinite_nansum=1, masked_mean_no_events=1), shards=1, factor=1)],
    technique="differential monitor: elements and events collected from raw memory per output position and folded in long double or exact integers, under ASan+UBSan, with random task partitions",
    rule="all reductions on random shapes, layouts, types, variances, NaN and infinities, masks and event masks, dense, binned and larger than every internal chunk size; non-trivial: distinct inputs",
    min_observed={"results-compared": 100000, "elements-folded": 1000000, "masked": 1000, "event-masked": 500, "accumulated": 20, "variances-compared": 10000})
CHECKS["C15"] = dict(
    runs=[run("c15", dict(variables=14000, concat=8000, cumsum=8000, arrays=9000, concat_arrays=5000, datasets=4000, edges=2000))],
    technique="runtime monitor with an independent index-mapping oracle: every element of every part of the result is read from raw memory and compared with the source element the definition names, under ASan+UBSan",
    rule="random shapes, layouts, element types, bin edges, masks, binned data; non-trivial: distinct inputs",
    min_observed={"elements-compared": 100000, "sums-compared": 10000, "arrays-joined": 500, "edges-joined": 200, "edges-folded": 100, "edges-flattened": 50, "datasets-joined": 200})
CHECKS["C16"] = dict(
    runs=[run("c16", dict(lines=12000, predicates=8000, rows=9000, long_rows=60, extract_rows=8000))],
    technique="runtime monitor with a row-permutation oracle: rows of input and result as text from raw memory, grouped by an own stable sort of the keys, under ASan+UBSan with random task partitions",
    rule="all key types with duplicates, NaN and infinities, up to 3000 rows, random layouts, edges, masks, binned data; non-trivial: distinct inputs",
    min_observed={"rows-compared": 50000, "duplicate-keys": 5000, "lines-sorted": 5000, "sorted": 1000, "unsorted": 1000, "rows-selected": 5000, "refused": 300, "datasets-sorted": 500})
CHECKS["C17"] = dict(
    runs=[run("c17", dict(dense=7000, binned=5000, datasets=3000, refusals=4000)),
          run("c17", dict(dense_large=16, binned_large=16), factor=10)],
    technique="differential monitor: every event compared with all edges in long double from raw memory and summed per bin, under ASan+UBSan with random task partitions",
    rule="even, nearly even, far-off, wide, tiny and duplicate edges of all types; events on, next to, between and outside of edges, NaN and infinities; masks, bins in any layout, sizes beyond every internal limit; non-trivial: distinct inputs",
    min_observed={"bins-compared": 100000, "events-counted": 50000, "variances-compared": 20000, "masked": 500, "rebinned": 500, "refused": 1000})
CHECKS["C18"] = dict(
    runs=[run("c18", dict(tables=2500, binned=2500, histories=1500, refusals=1500)),
          run("c18", dict(large=16), factor=10)],
    technique="conservation monitor: every event carries an identity; a nested-list model places it by comparing its coordinates with edges and groups in long double, and every output bin is compared event by event, field by field, under ASan+UBSan with random task partitions",
    rule="tables and binned data of any dimension order, edges of any shape, layout and spacing, point and multi-dimensional bin coordinates, masks, erased, rebinned, replaced and joined dimensions, histories of several binnings, sizes beyond the chunk limits; non-trivial: distinct inputs",
    min_observed={"events-compared": 20000, "refused": 300})
CHECKS["C19"] = dict(
    runs=[run("c19", dict(variables=4000, long_variables=1500, arrays=2500, refusals=3000))],
    technique="differential monitor: overlap-weighted sums in long double from raw memory, and conservation of the total, under ASan+UBSan with random task partitions",
    rule="ascending and descending, nested, disjoint, coincident, zero-width, infinite edges of all types, 1-D and N-D, any memory layout, NaN and infinities, masks; non-trivial: distinct inputs",
    min_observed={"bins-compared": 50000, "variances-compared": 10000, "totals-compared": 3000, "refused": 300})
CHECKS["C20"] = dict(
    runs=[run("c20", dict(arrays=3000, datasets=1200, concatenated=2500, refusals=3000)),
          run("c20", dict(large=16), factor=10)],
    technique="differential monitor: each group's members are selected by a model from the raw keys and reduced alone (long double sums, exact extremes, event lists), under ASan+UBSan with random task partitions",
    rule="keys of all types with duplicates, NaN of any sign and payload, out-of-range and unordered values, by value and by edges, own variables as keys, masks, binned data, any dimension order; non-trivial: distinct inputs",
    min_observed={"refused": 300})
CHECKS["C22"] = dict(
    runs=[run("c22", dict(points=4000, ranges=4000, texts=2000, refusals=3000))],
    technique="differential monitor: linear search in the raw coordinate values compared with label-based slicing, under ASan+UBSan",
    rule="ascending, descending, constant, unordered and NaN points and edges of all types, values on, next to, between and outside of them, open and empty ranges, arrays, datasets and binned data; non-trivial: distinct inputs",
    min_observed={"points": 1000, "ranges": 1000, "refused": 1000})
CHECKS["C31"] = dict(
    runs=[run("c31", dict(histograms=12000, points=9000, scaling=8000, refusals=5000))],
    technique="differential monitor: linear search of every event's coordinate among the raw edges or points of its own row of the table, in long double, under ASan+UBSan with random task partitions",
    rule="even, nearly even, far-off, wide, tiny and duplicate edges and points of all offered types, one- and multi-dimensional tables in any layout, masked tables, fill values, dense points and binned events on, next to, between and outside of the edges, NaN and infinities; non-trivial: distinct inputs",
    min_observed={"found": 10000, "filled": 10000, "masked": 500, "2d-tables": 200, "events-scaled": 5000, "variances-compared": 2000, "refused": 1000})
CHECKS["C21"] = dict(
    runs=[run("c21", dict(construct=6000, joined=6000, histories=6000))],
    technique="model-based history monitor: nested lists of events as text of every field from raw memory, carried next to the library's objects, earlier objects compared again at the end; own overlap and range check of all bins; under ASan+UBSan with random task partitions",
    rule="bins of variables, data arrays and datasets with all kinds of fields, valid and invalid indices, random histories of slicing, transposing, copying, concatenating, joining (with repetition), appending, reducing, folding, flattening, assigning, rebuilding and renaming; non-trivial: distinct inputs and histories",
    min_observed={"bins-compared": 50000, "events-compared": 50000, "accepted": 500, "rejected": 500, "appended": 200, "broadcast": 100, "steps": 5000})

CHECKS["C23"] = dict(
    runs=[run("c23", dict(arrays=4000, mixed=2500, in_place=3500, datasets=1500, datasets_in_place=1500, others=3000, merging=1200))],
    technique="Runtime monitoring of binary, unary and in-place operations on data arrays and datasets: metadata of results compared "
              "with the documented alignment table evaluated on raw coordinates, masks or-ed element by element, and full texts of "
              "all operands compared before and after, also after changing the result, under ASan/UBSan",
    rule="C23: alignment table, mask union, operands unchanged",
    min_observed={"binary operations": 2000, "in-place operations": 1200, "coord aligned/aligned different": 100, "coord unaligned/unaligned different": 200,
                  "coord aligned/unaligned different": 150, "coord unaligned/aligned different": 100, "masks or-ed": 500, "refused: mismatching coords": 200,
                  "dataset operations": 800, "in-place dataset operations": 700, "other operations": 1000, "merges": 300, "target is a slice": 200})
CHECKS["C25"] = dict(
    runs=[run("c25", dict(variables=3000, arrays=2500, datasets=2000, pools=500))],
    technique="Runtime monitoring of == and equals_nan: both directions compared with equality of independent full texts, on copies, "
              "other memory layouts and objects with a single planted difference, and on all pairs of pools of nearly equal objects, "
              "under ASan/UBSan",
    rule="C25: == iff texts equal and no NaN, equals_nan iff texts equal, both symmetric, != the negation",
    min_observed={"equal pairs": 20000, "different pairs": 20000, "equal up to NaN": 50, "planted: alignment": 500, "planted: variance": 30, "pools": 300})

CHECKS["C24"] = dict(
    runs=[run("c24", dict(arrays=2500, datasets=1500, assignments=1500))],
    technique="Runtime monitoring of long random histories of construction, assignment, renaming, slicing and removal on data arrays "
              "and datasets: after every step all parts are fitted against the dims by independent rules, refused steps must leave "
              "everything as it was, requests through read-only slices must be refused, and other holders must see shared coords, "
              "under ASan/UBSan",
    rule="C24: parts fit dims, refused steps change nothing, read-only parts stay read-only",
    min_observed={"steps-accepted": 8000, "steps-refused": 8000, "parts-fitted": 150000, "read-only-requests": 6000, "states-compared": 30000,
                  "assignments": 500, "assignments-refused": 700, "constructed": 2500})

CHECKS["C26"] = dict(
    runs=[run("c26", dict(elements=500, copies=64, once=250, reductions=56, bins=96, tables=48), cfg="tsan"),
          run("c26", dict(elements=600, copies=80, once=300, reductions=80, bins=200, tables=80))],
    parallel=8,
    technique="race detector on real threads with random partitions and injected delays, and differential monitor: the result of every "
              "schedule compared bit by bit (sums within rounding) with the one of a single task, plus per-element call counters; under "
              "ThreadSanitizer and again under ASan/UBSan",
    rule="C26: element-wise operations, copies, reductions, binned operations, sorting, grouping, binning, histogramming, rebinning and "
         "lookups, large enough to be split, refused ones included; non-trivial: distinct operation and partition",
    min_observed={"runs on threads": 2000, "runs in shuffled order": 400, "runs in finest pieces": 400, "split": 1200, "parts compared": 8000,
                  "elements counted": 500000, "refused": 20})
CHECKS["C27"] = dict(
    runs=[run("c27", dict(readers=2400), cfg="tsan")],
    parallel=8,
    technique="race detector while 2-6 threads read, slice, copy, compare, print and compute from the same objects and destroy their handles, "
              "and offline comparison of the merged log of what each thread saw with a single thread's view; under ThreadSanitizer",
    rule="C27: random dense and binned variables, arrays and datasets sharing buffers and coords, 41 kinds of read-only actions incl. first "
         "uses of labels and units; non-trivial: distinct objects and schedules of actions",
    min_observed={"actions": 50000, "destroyed by the last thread": 800, "did: first names": 1000, "did: first units": 1000, "did: arithmetic bins": 500,
                  "did: slice dataset": 800, "did: handle": 1000})
CHECKS["C28"] = dict(
    runs=[run("c28", dict(dates=4000, elements=4000, variables=4000, arrays=3000, small=3000))],
    technique="Runtime monitoring of every conversion to text: dates compared with gmtime on floored seconds or calendar arithmetic, elements "
              "with independently formatted ones, and the object's full text from raw memory before and after, under ASan/UBSan",
    rule="C28: time points of all units near and far from 1970 and at the limits; variables, arrays and datasets of all types and layouts, "
         "nested, binned, empty; non-trivial: distinct objects",
    min_observed={"dates before 1970": 20000, "dates after 1970": 20000, "far dates": 10000, "dates: ns": 4000, "dates: year": 4000, "dates: D": 4000,
                  "variances shown": 300, "long arrays shown": 500, "short arrays shown": 1500, "nested": 1000, "variables printed": 3000,
                  "arrays printed": 2500, "datasets printed": 2500, "shapes and slices": 2500, "units printed": 2500})
CHECKS["C29"] = dict(
    runs=[run("c29", dict(mixed=5000, focused=5000))],
    technique="ASan/UBSan over random sequences of about 250 public operations on a shared pool of variables, arrays and datasets, with ill-fitting "
              "arguments; after every step a monitor checks all objects' layout against their buffers, bins against ranges, coords against "
              "sizes; at the end every element is read, printed, copied and compared",
    rule="C29: sequences of 4 to 24 operations on objects of all types and layouts, arguments from the pool or random, aliasing allowed, "
         "operations chosen from all or from a few repeated ones; non-trivial: distinct sequences",
    min_observed={"completed": 30000, "refused": 30000, "objects read in full": 50000})
CHECKS["C30"] = dict(
    runs=[run("c30", dict(convert=8000, events=3000, refusals=3000, construct=5000, fields=4000))],
    technique="differential monitor: every converted, constructed, extracted or inserted element read from raw memory and compared with the "
              "language's own conversion of the source element; round trips through wider types; dims, unit, coords and masks compared; "
              "under ASan/UBSan",
    rule="C30: all pairs of element types, layouts, with and without variances, arrays, tables and binned data, fields of vectors, matrices, "
         "rotations, translations and affine transformations; non-trivial: distinct inputs",
    min_observed={"conversions": 6000, "restored by round trip": 2000, "rounded or cut": 2000, "fields of events": 300, "fields read": 5000,
                  "fields written and restored": 1000, "refused": 2000, "arrays converted": 2000, "binned converted": 2000,
                  "tables converted": 1000, "constructed": 3000, "wrong numbers refused": 500})
