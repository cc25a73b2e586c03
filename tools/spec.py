#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run it to rewrite both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe: d["anchors"]["observe_at"] = observe
    if hook: d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    return d

PROPS = [
P("C01", "A dimension name and a dimension label stand for each other one to one",
  "Two dimension labels are equal exactly when their texts are equal, and the text read back from a label is the text it was made from, in every history of creating, copying, comparing, hashing, ordering and reading labels, including many threads doing so at once for old and new texts. Creating or using labels concurrently is free of data races.",
  ["schedules", "histories", "inputs"],
  "All sequences and interleavings of label creation from arbitrary texts (built-in and new) with reading, comparing, hashing and ordering of labels.",
  "Unit tests create a handful of labels on one thread and never race two first uses of the same text.",
  ["lib/units/dim.cpp", "lib/units/include/scipp/units/dim.h"],
  [("process-wide registry text<->id guarded by a reader/writer lock", "lib/units/dim.cpp Dim::Dim, Dim::name")]),
P("C02", "Values with uncertainties propagate to first order, for every function",
  "For every supported function of values with variances the result value is that of the plain function and the result variance is the sum over operands of (partial derivative)^2 times the operand's variance, with operands taken as uncorrelated and operands without variances as exact. Comparisons and equality predicates between such elements use the values as documented and conversions between precisions keep value and variance.",
  ["inputs"],
  "All element values (including negative, zero, tiny, huge and special values), operand positions and mixtures of with/without variances, for all arithmetic and mathematical element functions.",
  "Unit tests check a few values per operator; a wrong sign, swapped operand or missing factor that vanishes at the sampled values goes unseen.",
  ["lib/core/include/scipp/core/value_and_variance.h", "lib/core/include/scipp/core/element/arithmetic.h", "lib/core/include/scipp/core/element/math.h", "lib/core/include/scipp/core/element/trigonometry.h", "lib/core/include/scipp/core/element/special_values.h", "lib/core/include/scipp/core/element/util.h"],
  [("ValueAndVariance operator overloads", "lib/core/include/scipp/core/value_and_variance.h")]),
P("C03", "Integer and floating-point helpers agree with exact arithmetic",
  "Floor division and modulo satisfy the documented contract (quotient rounded towards minus infinity, remainder with the sign of the divisor, integer division by zero giving zero), integer powers equal repeated multiplication, and the checks for sorted, evenly spaced and consecutive data answer yes exactly for such data. They hold for every operand pair whose exact result is representable, and never execute undefined behaviour.",
  ["inputs"],
  "All values of all supported arithmetic types, all operand orders, all ranges and lengths (empty and single-element included).",
  "Tests sample small operands; sign combinations, extremes beyond 2^53 and non-monotonic data are not covered.",
  ["lib/common/include/scipp/common/numeric.h", "lib/core/include/scipp/core/element/arithmetic.h", "lib/core/include/scipp/core/element/util.h"],
  [("floor_divide, mod, pow, islinspace, isarange", "lib/common/include/scipp/common/numeric.h")]),
P("C04", "Strided traversal visits exactly the addressed elements, in order",
  "Traversing any set of equally shaped, arbitrarily sliced, transposed, reversed-order or broadcast views in lockstep visits every index of the shape exactly once in row-major order and addresses for each view the element that index denotes, for every number of views, wherever the traversal is started, advanced to or split, and also when elements are themselves lists of varying length (including empty ones). No memory outside the views is touched, and shapes with too many dimensions are rejected.",
  ["inputs"],
  "All shapes up to the supported rank (size 0 and 1 included), all stride combinations, all start positions and step distances, all bin-size patterns.",
  "Tests enumerate a few layouts up to three dimensions; the stride-collapsing and bin-skipping logic depends on combinations of layouts.",
  ["lib/core/include/scipp/core/multi_index.h", "lib/core/multi_index.cpp", "lib/core/include/scipp/core/view_index.h", "lib/core/view_index.cpp", "lib/core/include/scipp/core/element_array_view.h", "lib/core/element_array_view.cpp", "lib/core/strides.cpp", "lib/common/include/scipp/common/index_composition.h"],
  [("MultiIndex / ViewIndex increment, set_index, end and bin loading", "lib/core/include/scipp/core/multi_index.h"), ("flat index <-> multi index", "lib/common/include/scipp/common/index_composition.h")]),
P("C05", "An element buffer is a plain value: contents, size and copies are exact",
  "After any sequence of constructing, copying, moving, assigning, resizing and writing element buffers, each buffer has exactly the size and contents a simple list model predicts, copies never share memory with their source, moved-from and unset buffers stay distinguishable from empty ones, and every element is constructed and destroyed exactly once. No sequence leaks, double-frees or reads uninitialised or released memory.",
  ["histories"],
  "All operation sequences over buffers of all element types, sizes (unset, empty, small, large enough for parallel copying) and aliasing (self-assignment).",
  "Tests cover single operations on one or two buffers; interplay of unset, empty, moved-from and self-assigned buffers over a history is not sampled.",
  ["lib/core/include/scipp/core/element_array.h", "lib/core/include/scipp/core/aligned_allocator.h"],
  [("element_array special members, resize, reset", "lib/core/include/scipp/core/element_array.h")]),
P("C06", "Spatial transformations compose and act like the maps they denote",
  "Applying a product of spatial transformations (rotations, scalings, translations, affine and general linear maps, in any mixture) to a vector equals applying the factors one after the other from right to left, and products are associative. Converting a transformation into a more general kind, or inverting it, denotes the same, respectively the inverse, map.",
  ["inputs"],
  "All pairs and triples of transformation kinds, all parameter values within floating-point tolerance.",
  "Tests use one or two fixed transformations per pair; order or term mistakes that vanish for commuting or unit transformations are missed.",
  ["lib/core/include/scipp/core/spatial_transforms.h", "lib/core/include/scipp/core/eigen.h", "lib/core/include/scipp/core/element/geometric_operations.h", "lib/variable/inv.cpp"],
  [("operator* overload set of Quaternion, Translation, Scaling, Affine3d, Matrix3d", "lib/core/include/scipp/core/spatial_transforms.h")]),
P("C07", "Shape bookkeeping is consistent under every operation on dimensions",
  "Any sequence of adding, erasing, renaming, resizing, slicing, transposing, merging, intersecting, folding and broadcasting labelled shapes yields the labels, order, lengths and volume that an ordered label-to-length list would, rejects exactly the requests that make no sense (duplicate, unknown or mismatching labels, out-of-range slices, negative lengths), and a rejected request leaves the shape unchanged.",
  ["histories", "inputs"],
  "All sequences of operations over all shapes, labels and slice parameters, including invalid ones.",
  "Tests cover single operations; sequences and invalid requests in the middle are sampled sparsely.",
  ["lib/core/dimensions.cpp", "lib/core/sizes.cpp", "lib/core/slice.cpp", "lib/core/include/scipp/core/sizes.h", "lib/core/include/scipp/core/dimensions.h", "lib/core/rename.h", "lib/core/strides.cpp"],
  [("Sizes / Dimensions / merge / intersection / transpose", "lib/core/sizes.cpp, lib/core/dimensions.cpp")]),
P("C08", "Named-entry dictionaries act as insertion-ordered maps",
  "Under every history of inserting, replacing, erasing, extracting, looking up, iterating, copying and moving, the dictionary of coordinates holds exactly the keys and values of an insertion-ordered map, failed lookups and removals raise not-found errors without any effect, and iteration visits each entry once in order. An iterator or view used after the dictionary was changed under it reports an error rather than touching released memory.",
  ["histories"],
  "All operation sequences with few keys and many repetitions, with live iterators and transformed views across modifications.",
  "Tests perform one or two operations per test; sequences mixing live iterators with modifications are not explored.",
  ["lib/core/include/scipp/core/dict.h", "lib/core/dict.cpp"],
  [("Dict, key/value/item iterators expecting an unchanged container", "lib/core/include/scipp/core/dict.h")]),
P("C09", "Sparse bin-size bookkeeping equals its dense meaning",
  "The compact representation of per-output-bin sizes used by binning behaves, for sums, differences, cumulative sums, intersections and trimming, exactly like the dense integer vector it stands for restricted to its range, for every combination of offsets and lengths, without touching memory outside the stored sizes.",
  ["inputs", "histories"],
  "All offsets, lengths and contents of the operands, overlapping, nested, disjoint and empty.",
  "Tests pick a few offsets; boundary arithmetic on offset pairs is where it breaks.",
  ["lib/core/subbin_sizes.cpp", "lib/core/include/scipp/core/subbin_sizes.h", "lib/core/include/scipp/core/element/bin_detail.h"],
  [("SubbinSizes operators", "lib/core/subbin_sizes.cpp")]),
P("C10", "Operations carry the right unit, and unit conversion scales exactly",
  "Every operation yields the unit that dimensional analysis of its operands gives, refuses operands with incompatible units, and converting data to another unit multiplies values by the exact conversion factor (variances by its square), rounding integers and times to the nearest representable count; converting there and back where it is lossless restores the data. Whether a factor is an integer or a fraction, data of any integer or time width is converted without loss of precision or undefined behaviour whenever the result is representable.",
  ["inputs"],
  "All element types, values and unit pairs (including time points at present-day dates in any resolution), all unit expressions of supported operations.",
  "Tests use small values and a few units, where double-precision detours do not show.",
  ["lib/units/unit.cpp", "lib/variable/to_unit.cpp", "lib/core/include/scipp/core/element/to_unit.h", "lib/dataset/to_unit.cpp"],
  [("unit operators and conversion scale", "lib/units/unit.cpp"), ("element::to_unit kernel and its precision handling", "lib/core/include/scipp/core/element/to_unit.h")]),
P("C11", "Element-wise results do not depend on layout, broadcasting or type path",
  "An element-wise operation on any combination of sliced, transposed, broadcast, scalar, dense or binned operands of any supported element types gives at every position exactly the result of the scalar operation on the operand elements at that position, with the merged dimensions in documented order. Operand order in memory, the code path chosen for a layout and the presence of variances in another operand never change it.",
  ["inputs"],
  "All shapes, memory layouts, dimension orders, broadcasts, element-type combinations and operators.",
  "Tests cover selected layouts with two or three dimensions; specialised inner loops are picked by stride patterns that tests do not enumerate.",
  ["lib/variable/include/scipp/variable/transform.h", "lib/core/include/scipp/core/transform_common.h", "lib/variable/arithmetic.cpp", "lib/variable/comparison.cpp", "lib/core/include/scipp/core/values_and_variances.h"],
  [("transform / inner_loop / dispatch on inner strides", "lib/variable/include/scipp/variable/transform.h")]),
P("C12", "In-place operations change only their target, fully or not at all",
  "An in-place operation leaves the target with exactly the result of the corresponding out-of-place operation and changes no element outside the addressed slice and no other operand, also when operands overlap or alias the target. If it fails for any reason (shape, unit, element type, variances, read-only) the target's data, unit, coordinates and masks are unchanged, for single arrays as well as for whole collections.",
  ["inputs", "fault_sequences"],
  "All in-place operators over all targets, slices, aliasing patterns and causes of failure, on plain variables, data arrays and datasets.",
  "Tests check a few failures and aliasing cases; partial updates only show when the failing step comes after a succeeding one.",
  ["lib/variable/include/scipp/variable/transform.h", "lib/variable/arithmetic.cpp", "lib/variable/pow.cpp", "lib/dataset/arithmetic.cpp", "lib/dataset/data_array.cpp", "lib/dataset/slice.cpp"],
  [("overlap detection and copy before in-place transform", "lib/variable/include/scipp/variable/transform.h"), ("dry-run before in-place dataset operations", "lib/dataset/arithmetic.cpp")]),
P("C13", "Slices share data with their source, copies never do, read-only is enforced",
  "A write through a slice, transposed or renamed view is seen at exactly the corresponding positions of the source and of all other views and nowhere else; a deep copy is equal to its source and unaffected by any later change to it. Views marked read-only refuse every write, and what was obtained from them stays read-only.",
  ["histories"],
  "All histories of slicing, transposing, renaming, copying, writing and replacing over variables, data arrays, datasets and binned data.",
  "Tests check one view and one write at a time; aliasing errors show up in chains of views and copies.",
  ["lib/variable/variable.cpp", "lib/variable/slice.cpp", "lib/dataset/data_array.cpp", "lib/dataset/dataset.cpp", "lib/dataset/sized_dict.cpp", "lib/variable/include/scipp/variable/bin_array_model.h"],
  [("shared model pointer + strides/offset, read-only flag", "lib/variable/variable.cpp")]),
P("C14", "Reductions equal a plain loop over the unmasked elements",
  "Sum, mean, min, max, all, any and their NaN-ignoring forms over any dimension or all dimensions equal the plain left-to-right definition applied to the elements that are not masked (and not NaN where stated), with variances combined to first order, integer results exact, and the documented neutral element for empty input. Masks that depend on the reduced dimension are applied and dropped, others are kept.",
  ["inputs"],
  "All shapes (including zero length and longer than internal chunk sizes), layouts, element types, masks and reduced dimensions, for dense and binned data.",
  "Tests reduce tiny arrays; chunked accumulation, empty output, multi-mask and layout-dependent paths need sizes and combinations tests do not reach.",
  ["lib/variable/reduction.cpp", "lib/variable/include/scipp/variable/accumulate.h", "lib/dataset/variable_reduction.cpp", "lib/dataset/mean.cpp", "lib/dataset/nanmean.cpp", "lib/variable/bins.cpp", "lib/core/include/scipp/core/element/comparison.h"],
  [("accumulate_in_place, chunked reduction", "lib/variable/include/scipp/variable/accumulate.h")]),
P("C15", "Reshaping and joining operations only move elements, never alter them",
  "Concatenating, slicing, folding, flattening, transposing, squeezing, broadcasting, stacking and cumulative summing place at every position of the result exactly the element(s) the definition names, together with matching coordinates, bin edges and masks; splitting a concatenation or unfolding a flattening restores the input. Inputs are left unchanged.",
  ["inputs"],
  "All shapes, dimension orders, layouts, element types, bin-edge and non-edge coordinates, dense and binned data.",
  "Tests check small fixed examples; joins of edges, strided inputs and higher ranks are combinatorial.",
  ["lib/variable/shape.cpp", "lib/dataset/shape.cpp", "lib/variable/cumulative.cpp", "lib/core/include/scipp/core/element/cumulative.h", "lib/dataset/bins.cpp"],
  [("concat, fold, flatten, resize, transpose", "lib/variable/shape.cpp, lib/dataset/shape.cpp")]),
P("C16", "Sorting only permutes rows, and order predicates tell the truth",
  "Sorting by a key or coordinate, ascending or descending, yields a permutation of the rows (values, variances, coordinates and masks moved together) in which the keys are in the requested order. The predicates for sortedness answer yes exactly when the sequence along the dimension is in the stated order.",
  ["inputs"],
  "All key types, duplicates, lengths, layouts, orders and accompanying coordinates and masks.",
  "Tests sort three or four elements; parallel sorting and rows moved with duplicates need larger inputs.",
  ["lib/dataset/sort.cpp", "lib/variable/util.cpp", "lib/variable/sort.cpp", "lib/core/include/scipp/core/element/sort.h", "lib/core/include/scipp/core/element/util.h"],
  [("sort permutation + extraction", "lib/dataset/sort.cpp"), ("issorted / allsorted", "lib/variable/util.cpp")]),
P("C17", "Histogramming counts every event exactly once, in the right bin",
  "Each bin of a histogram holds the sum of weights and of variances of exactly those events whose coordinate lies in the bin (lower edge included, upper edge excluded), whichever way edges are spaced, whatever the types of coordinate and edges, and however events are distributed over input bins. Events outside the edges, masked or with a NaN coordinate contribute nowhere.",
  ["inputs"],
  "All event distributions (on edges, outside, NaN, empty bins), edge arrays (regular, irregular, one bin, many bins), element types and dimensions.",
  "Tests place few events well inside bins; events on or next to computed edges exercise rounding in the regular-spacing shortcut.",
  ["lib/dataset/histogram.cpp", "lib/core/include/scipp/core/element/histogram.h", "lib/core/include/scipp/core/histogram.h", "lib/core/include/scipp/core/element/event_operations.h"],
  [("get_bin / linear-edge shortcut vs. binary search", "lib/core/include/scipp/core/histogram.h, lib/core/include/scipp/core/element/histogram.h")]),
P("C18", "Binning and grouping data conserves every event with all its fields",
  "After binning or grouping by any number of coordinates, every input event whose coordinates fall inside the given edges or groups is found exactly once, in the bin that contains its coordinates, with all its other fields unchanged and in a stable relative order, and no other event appears. This holds for dense and already binned input whose events lie within its bins, for adding, replacing and removing dimensions, for masked input (masked bins that are merged contribute nothing) and for any number of bins and events.",
  ["inputs", "histories"],
  "All event tables, edge and group definitions, numbers of bins (beyond internal chunk limits), rebinning histories and element types.",
  "Tests use a few events and bins; chunked mapping and sparse offsets only engage for large or specially placed bins.",
  ["lib/dataset/bin.cpp", "lib/dataset/bin_detail.cpp", "lib/variable/bin_detail.cpp", "lib/core/include/scipp/core/element/bin.h", "lib/core/include/scipp/core/element/map_to_bins.h", "lib/core/include/scipp/core/element/bin_detail.h", "lib/core/subbin_sizes.cpp"],
  [("target bin builder, sub-bin sizes and two-stage mapping", "lib/dataset/bin.cpp, lib/core/include/scipp/core/element/map_to_bins.h")]),
P("C19", "Rebinning conserves counts and does not depend on memory layout",
  "Rebinning a histogram distributes every old bin over the overlapping new bins in proportion to the overlap, so each new bin holds exactly the overlap-weighted sum of values and of variances and the total inside the common range is conserved, for ascending and descending edges. The result is the same for every memory layout of the input, and bins that do not overlap a new bin never influence it.",
  ["inputs"],
  "All edge pairs (ascending, descending, nested, disjoint, coincident), data layouts, element types, variances and special values.",
  "Tests rebin small contiguous arrays; the separate kernel for non-contiguous data is sampled by values that hide different variance scaling.",
  ["lib/variable/rebin.cpp", "lib/core/include/scipp/core/element/rebin.h", "lib/dataset/rebin.cpp"],
  [("rebin kernels for inner and non-inner dimension", "lib/variable/rebin.cpp, lib/core/include/scipp/core/element/rebin.h")]),
P("C20", "Group-by results equal selecting each group and reducing it alone",
  "Grouping data by a coordinate (with or without bins) and reducing, concatenating or copying groups gives for each group exactly the result of selecting its members in order and applying the operation to them alone, honouring masks, and every member of the input belongs to at most one group. The listed groups are the distinct keys in ascending order.",
  ["inputs"],
  "All key columns (duplicates, out-of-range, NaN, strings, integers), group counts, reductions, masks, dimension orders.",
  "Tests group a handful of rows into two or three groups.",
  ["lib/dataset/groupby.cpp", "lib/dataset/include/scipp/dataset/groupby.h"],
  [("GroupByGrouping, reduce over slices in parallel", "lib/dataset/groupby.cpp")]),
P("C21", "Binned data behaves as an array of independent event lists",
  "Under every history of slicing, copying, transposing, assigning, joining bins, concatenating along dimensions, per-bin reductions, scaling, mapping and selecting, binned data holds in each bin exactly the events a nested-list model holds, in order, with all their fields. Bins stay within their event table and never overlap, and constructing binned data from indices that violate this is rejected.",
  ["histories", "inputs"],
  "All bin-size patterns (empty, gaps, permuted), bin layouts, operations and their sequences.",
  "Tests use contiguous, in-order bins in one dimension; gaps, permutations and sliced bins arise only from histories.",
  ["lib/dataset/bins.cpp", "lib/variable/bins.cpp", "lib/variable/include/scipp/variable/bin_array_model.h", "lib/variable/bin_array_variable.cpp", "lib/dataset/variable_instantiate_bin_elements.cpp", "lib/variable/bin_detail.cpp"],
  [("bin index pairs into a shared buffer; copy_slices", "lib/variable/include/scipp/variable/bin_array_model.h, lib/dataset/bins.cpp")]),
P("C22", "Slicing by coordinate value selects exactly the matching points",
  "Selecting by a coordinate value returns the one point (or the one bin containing it) with that value, and selecting by a value range returns exactly the contiguous points from begin (inclusive) to end (exclusive) in the order of the coordinate, or the bins overlapping that range, for ascending and descending coordinates, edges or points. Requests that cannot be answered uniquely (missing, duplicate or unordered values, wrong unit) raise an error.",
  ["inputs"],
  "All coordinate arrays, orders, types, requested values and open or empty ranges, on variables, data arrays and datasets.",
  "Tests slice a few hand-picked values; boundary values of descending edges are rarely hit.",
  ["lib/dataset/slice.cpp", "lib/variable/slice.cpp", "lib/dataset/include/scipp/dataset/slice.h"],
  [("get_slice_params from coordinate values", "lib/variable/slice.cpp")]),
P("C23", "Coordinates guard, masks combine, and alignment decides what is kept",
  "In operations between data arrays or datasets, aligned coordinates with equal names must be identical (NaN equal to NaN) or the operation fails; the result has all aligned coordinates of both operands, an aligned one taking precedence over an unaligned one, and of the unaligned ones those which both operands have and agree on, masks are combined by logical or without changing the operands' masks, and operations in place refuse operands with aligned coordinates that the target lacks. No operation changes the coordinates, masks or attributes of an operand that is not its target.",
  ["inputs", "histories"],
  "All combinations of coordinate sets, values, alignment flags, bin edges, masks and broadcast dimensions of the operands.",
  "Tests cover single coordinates and masks; interactions of alignment, slicing and broadcasting are combinatorial.",
  ["lib/dataset/arithmetic.cpp", "lib/dataset/dataset_operations_common.h", "lib/dataset/operations.cpp", "lib/dataset/sized_dict.cpp", "lib/dataset/data_array.cpp"],
  [("coords union / intersection, masks union", "lib/dataset/sized_dict.cpp, lib/dataset/operations.cpp")]),
P("C24", "Collections keep one consistent shape through every history",
  "After any sequence of successful and rejected insertions, removals, replacements, renames and slices of items, coordinates and masks, every item, coordinate and mask of a data array or dataset fits its dimensions (or exceeds one by one as bin edges), items see the shared coordinates, and rejected requests leave the object as it was. Read-only parts refuse changes.",
  ["histories", "fault_sequences"],
  "All operation histories including invalid requests, on data arrays, datasets, their slices and their coordinate and mask dictionaries.",
  "Tests check individual setters; consistency over histories with rejected steps is not sampled.",
  ["lib/dataset/dataset.cpp", "lib/dataset/data_array.cpp", "lib/dataset/sized_dict.cpp", "lib/core/sizes.cpp"],
  [("SizedDict::set size checks, Dataset::setData/setCoords", "lib/dataset/sized_dict.cpp, lib/dataset/dataset.cpp")]),
P("C25", "Identity comparison is an equivalence that sees every difference",
  "Identity comparison is reflexive (with NaN-equality where offered), symmetric and transitive, agrees for every memory layout of equal content, and tells two objects apart whenever any element, variance, unit, element type, dimension or order of dimensions, coordinate or its alignment, mask, attribute, name of a coordinate, mask or dataset item, or bin content differs (the name of a data array by itself is not compared). A copy is identical to its source.",
  ["inputs"],
  "All pairs of variables, data arrays and datasets, with single differences planted anywhere.",
  "Tests compare few hand-made pairs; a comparison that skips a part passes them.",
  ["lib/variable/variable.cpp", "lib/variable/include/scipp/variable/element_array_model.h", "lib/variable/include/scipp/variable/bin_array_model.h", "lib/dataset/data_array.cpp", "lib/dataset/dataset.cpp", "lib/dataset/sized_dict.cpp"],
  [("operator== and equals_nan", "lib/variable/variable.cpp and models")]),
P("C26", "Parallel execution is race-free and does not change results",
  "Operations that split work over threads are free of data races and give results that do not depend on the number of threads or on how and in which order the work is split (bitwise, except floating-point sums, which agree within rounding). Each element is computed exactly once.",
  ["schedules"],
  "All partitions and interleavings of the parallel sections of element-wise operations, reductions, copies, sorting, grouping, binning and rebinning.",
  "Tests run small inputs that fit one task; races and split-dependence need large inputs and many interleavings.",
  ["lib/core/include/scipp/core/parallel-tbb.h", "lib/variable/include/scipp/variable/transform.h", "lib/variable/include/scipp/variable/accumulate.h", "lib/variable/rebin.cpp", "lib/dataset/groupby.cpp", "lib/dataset/sort.cpp", "lib/core/include/scipp/core/element_array.h"],
  [("parallel_for over blocked ranges writing disjoint outputs", "lib/core/include/scipp/core/parallel-tbb.h")],
  hook="none: a stand-in for the tbb headers splits, delays and reorders the tasks"),
P("C27", "Objects shared between threads can be read concurrently",
  "Any number of threads may concurrently read, slice, copy, compare, print and compute from the same variables, data arrays and datasets (sharing buffers, coordinates or bins) without data races, and each sees the same results as a single thread would. Destroying one reference while others are in use is safe.",
  ["schedules"],
  "All interleavings of read-only operations on shared objects, including first uses of lazily registered names, units and types.",
  "Tests are single threaded.",
  ["lib/variable/variable.cpp", "lib/dataset/dataset.cpp", "lib/dataset/data_array.cpp", "lib/units/dim.cpp", "lib/variable/variable_factory.cpp", "lib/core/dtype.cpp"],
  [("shared ownership without hidden mutable state", "lib/variable/variable.cpp, lib/dataset/data_array.cpp")]),
P("C28", "Text output is total and dates are exact",
  "Converting any variable, data array, dataset, slice, shape, unit or element to text terminates without error or undefined behaviour and without changing the object; time points need a unit of time. Time points of every resolution from nanoseconds to years are printed as the proleptic Gregorian date and time they denote, before and after 1970, with the resolution's number of fractional digits, wherever the year fits the format. The text of an array shows its first and last elements in order.",
  ["inputs"],
  "All objects (empty, huge, non-finite, binned, nested, read-only) and all 64-bit time points in all units.",
  "Tests print typical objects and dates after 1970.",
  ["lib/core/string.cpp", "lib/core/include/scipp/core/array_to_string.h", "lib/variable/string.cpp", "lib/dataset/string.cpp", "lib/units/string.cpp"],
  [("to_iso_date and array_to_string", "lib/core/string.cpp, lib/core/include/scipp/core/array_to_string.h")]),
P("C29", "No input makes the library touch invalid memory or invoke undefined behaviour",
  "Every sequence of public operations with arguments of any shape, type, unit, value and layout either completes or raises a documented error; it never reads or writes outside an object, uses released memory, leaks, overflows a fixed buffer, loops forever or aborts. Overflow of integer elements in arithmetic and conversion of elements to types that cannot hold them are left to the caller, as in C++.",
  ["inputs", "histories"],
  "All sequences of public operations with arbitrary (also ill-fitting) arguments.",
  "Tests call functions with sensible arguments and run without sanitizers.",
  ["lib/core", "lib/variable", "lib/dataset"],
  [("argument validation by exceptions at the public interface", "lib/*/except.*")]),
P("C30", "Element-type conversion and construction keep every representable value",
  "Converting an element type, constructing from typed data, extracting fields of structured elements and inserting them back keep every value and variance that the target type can represent exactly and round others within the range of the target type as the language defines; converting to a wider type and back restores the data. A conversion never changes dimensions, unit, coordinates or masks.",
  ["inputs"],
  "All pairs of element types, values, layouts, with and without variances, vectors and matrices with all their fields.",
  "Tests convert a few small values per pair.",
  ["lib/variable/astype.cpp", "lib/dataset/astype.cpp", "lib/variable/structures.cpp", "lib/variable/creation.cpp", "lib/variable/include/scipp/variable/structure_array_model.h"],
  [("astype transform, structure element access", "lib/variable/astype.cpp, lib/variable/structures.cpp")]),
P("C31", "Looking up events in a table returns the entry that covers them",
  "Mapping coordinates of events or elements through a histogram or a table of points yields for each the value of the bin containing it or of the last point not above it, and the given (by default NaN or zero) fill value where there is none, where the coordinate is NaN or where the entry is masked; scaling by a histogram multiplies event weights by just that value and adds those masks that do not depend on the looked-up dimension. It does not matter whether the table is evenly spaced, how it is stored, nor which of the offered types coordinate and table have. Tables that are not sorted, or whose units, types or kind (edges, points) do not fit, are refused.",
  ["inputs"],
  "All tables (regular, irregular, one entry, many), event distributions (on edges, outside, NaN) and element types.",
  "Tests use few events inside a few bins.",
  ["lib/dataset/bins.cpp", "lib/core/include/scipp/core/element/event_operations.h", "lib/core/include/scipp/core/histogram.h", "lib/variable/variable_instantiate_map_elements.cpp"],
  [("map_linspace / map_sorted_edges / lookup_previous kernels", "lib/core/include/scipp/core/element/event_operations.h")]),
]

# Properties this family cannot decide here.
NOT_APPLICABLE = {
}
ASSURANCE = ("Observed executions only: no violation on the generated cases of this seed, with AddressSanitizer, "
             "LeakSanitizer and UndefinedBehaviorSanitizer (or ThreadSanitizer) watching every one of them. Trusts the "
             "oracle in the harness, the stand-ins for LLNL-Units and tbb, and the compiler.")

def main():
    import sys
    sys.path.insert(0, os.path.join(V, "tools"))
    from checks import CHECKS
    for p in PROPS:
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                           "thorough_cmd": "python3 check.py " + i + " --thorough",
                           "technique": c["technique"], "level": c.get("level", "exploration"),
                           "level_note": ASSURANCE})
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup",
         "hooks": {"guard": "SCIPP_VERIF", "enable": "the checks compile /repo/lib with -DSCIPP_VERIF; no code in /repo uses it, "
                   "because all observation happens through the public API, the sanitizers and stand-ins for tbb and LLNL-Units",
                   "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. known-findings.txt lists the defects found, all but the listed ones repaired by fix: commits."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

if __name__ == "__main__":
    main()
