#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the anchors stay readable)."""
import json, sys, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Integer and decimal-number recognition accepts exactly the number grammar",
 "A string is recognised as an integer exactly when it is an optional single sign followed by one or more decimal digits. "
 "A string is recognised as a floating-point number exactly when it is an optional single sign, a mantissa of decimal digits with at most one decimal point and at least one digit, and optionally an exponent marker (e or E) with an optional sign and one or more digits. "
 "Every other string, of any length and content, is rejected by the respective recogniser.",
 ["inputs"], "all byte strings of every length",
 "The stable tests try about twenty fixed strings; the guarantee is about all strings and the current tests never try a string that starts with another character.",
 ["include/utils/StringUtils.h"],
 [("integer recogniser", "include/utils/StringUtils.h:is_int"), ("float recogniser", "include/utils/StringUtils.h:is_float")],
 observe=["return value of is_int / is_float"])

prop("C02", "Fixed-size sorting yields a sorted permutation and moves attached data along",
 "After sorting a fixed-size array, its elements are in non-decreasing order and are a permutation of the original elements, for every array size the interface accepts. "
 "When a second array of attached data is passed, it is rearranged by the same permutation: every (key, data) pair present before the call is present after it, and only those.",
 ["inputs", "configurations"], "all array sizes the static size check admits and all contents",
 "No stable test calls the sort; a test would sample a few sizes (the code uses sizes 3 and 4) and contents, not every size and content.",
 ["include/utils/StaticSort.h"],
 [("insertion sort", "include/utils/StaticSort.h:static_insertion_sort"), ("insertion sort with data", "include/utils/StaticSort.h:static_insertion_sort_with_data")],
 observe=["contents of the arrays after the call"])

prop("C03", "Bit-level integer helpers compute their mathematical function on every word",
 "For every unsigned word of 8, 16, 32 and 64 bits: the power-of-two test is true exactly for powers of two; rounding up to a power of two returns the smallest power of two not below the argument whenever 1 <= argument and that power fits the word, and returns 0 otherwise; the integer logarithm of a non-zero argument is the index of its highest set bit; the bit count is the number of set bits. "
 "The base-n logarithm, for a non-zero argument and a base that is a power of two of at least 2, is the largest exponent e with base^e not exceeding the argument; the test for divisibility by n of a non-zero argument is the exact remainder test.",
 ["inputs"], "all argument values of each supported unsigned width",
 "No test covers these helpers; the hash tables and iterators rely on them for all sizes, and a 64-bit domain cannot be sampled exhaustively.",
 ["include/utils/Misc.h"],
 [("isPow2/isPowN/nextPow2/log2/logN/popcount", "include/utils/Misc.h:12-54")],
 observe=["return values"])

prop("C04", "String splitting returns exactly the delimiter-separated fields in order",
 "Splitting a string at a delimiter returns, in order, exactly the maximal pieces between consecutive delimiters; in the mode that drops empty fields only the empty pieces are omitted. "
 "Whatever the result container held before is discarded, and joining the returned fields with the delimiter gives back the input when empty fields are kept.",
 ["inputs"], "all input strings and delimiter characters, both modes, any previous contents of the result",
 "No test covers splitting; point files and stored measurements are parsed with it.",
 ["include/utils/Misc.h"],
 [("split", "include/utils/Misc.h:split")], observe=["returned container"])

prop("C05", "Block-growing array: stable element cells and checked access",
 "A block-growing array provides, for every index below its capacity, its own element cell: a value written to one index is read back from that index, through both element and checked access, after any writes to other indices and any later growth. "
 "Growing makes the capacity at least the requested number of elements and never shrinks it or changes stored values. "
 "Checked access to any index at or beyond the capacity throws an out-of-range error and never touches memory.",
 ["inputs", "histories"], "all indices and growth histories, block sizes 1, 7 and 512, all sequences of reserve, write and read",
 "The header is only syntax-checked by the stock build; a test samples a few indices and never the boundary index.",
 ["include/datastructures/BlockedArray.hxx"],
 [("index arithmetic", "include/datastructures/BlockedArray.hxx:operator[]"), ("bounds check", "include/datastructures/BlockedArray.hxx:at"), ("growth", "include/datastructures/BlockedArray.hxx:reserve")],
 state=[("m_nBlocks", "number of allocated blocks", "include/datastructures/BlockedArray.hxx"), ("m_blocks", "the blocks", "include/datastructures/BlockedArray.hxx")],
 observe=["operator[]", "at", "thrown exceptions"])

prop("C06", "Simplex store finds every stored identifier in its block, with any hint",
 "In the block-organised simplex store, whose added ranges are non-empty and pairwise disjoint, every identifier of every added range addresses its own cell; the membership test is true exactly for identifiers inside some added range (for a live simplex: inside a range and not deleted), for every hint that names a block of the store; and access never depends on the hint. Access outside every range throws instead of touching memory. "
 "Merging two stores makes every identifier of either store reachable with its content unchanged. Iterating forwards, backwards or over split ranges visits exactly the stored cells (of the simplex store: the live ones) in ascending order.",
 ["inputs", "histories"], "all sets of non-empty disjoint identifier ranges in any order of addition and merging, all identifiers, all hints that name a block",
 "The existing data structure tests do not build here, and they add a handful of ascending ranges with fresh hints.",
 ["include/datastructures/BlockedArray2.hxx", "include/Geometry.h"],
 [("block search", "include/datastructures/BlockedArray2.hxx:_findBlock"), ("merge of sorted blocks", "include/datastructures/BlockedArray2.hxx:merge"), ("iteration over live simplices", "include/datastructures/BlockedArray2.hxx:filtered_block_iterator"), ("membership of live simplices", "include/Geometry.h:dSimplices::contains")],
 state=[("m_blocks", "identifier ranges sorted by lower bound", "include/datastructures/BlockedArray2.hxx")],
 observe=["contains", "at", "iteration"])

prop("C07", "Sequential identifier set behaves like a mathematical set",
 "The sequential identifier set contains a key exactly when that key was inserted (directly, by copy, or by merging another set in) and not removed by a filter, no matter how keys collide or how often the table grew. "
 "Inserting reports true exactly when the key was not present before; the size is the number of distinct keys; iteration visits each contained key exactly once.",
 ["inputs", "histories"], "all sequences of insert, lookup, growth, copy, move, merge, filter and comparison over non-zero keys, all hash multipliers",
 "The existing tests do not build here and use a few hundred random keys with one random multiplier; collisions chains that wrap around the table end are not forced.",
 ["include/datastructures/LP_Set.hxx"],
 [("linear probing insert", "include/datastructures/LP_Set.hxx:LP_Set::insert"), ("lookup", "include/datastructures/LP_Set.hxx:LP_Set::contains"), ("growth and filter", "include/datastructures/LP_Set.hxx:LP_Set::rehash"), ("merge", "include/datastructures/LP_Set.hxx:LP_Set::merge")],
 state=[("m_array", "open-addressing table, 0 = free", "include/datastructures/LP_Set.hxx"), ("m_items", "number of keys", "include/datastructures/LP_Set.hxx")],
 observe=["insert", "contains", "count", "size", "iteration"])

prop("C08", "Sequential identifier map returns the stored value for each key",
 "The sequential hash map returns, for every key inserted, the value of the last insertion of that key (in a merge, the value of the merged map), and zero for other keys, however keys collide and however often the table grew. "
 "Its size is the number of distinct keys and iteration visits each key with its value exactly once.",
 ["inputs", "histories"], "all sequences of insert, lookup and growth over non-zero keys and all values, all hash multipliers",
 "The existing tests do not build here and sample random keys only.",
 ["include/datastructures/LP_Map.hxx"],
 [("insert", "include/datastructures/LP_Map.hxx:LP_Map::insert"), ("lookup", "include/datastructures/LP_Map.hxx:LP_Map::get"), ("growth", "include/datastructures/LP_Map.hxx:LP_Map::rehash")],
 state=[("m_keys/m_values", "table", "include/datastructures/LP_Map.hxx")],
 observe=["insert", "get", "contains", "size"])

prop("C09", "Sequential multimap returns all values stored under a key",
 "The sequential hash multimap returns, for every key, exactly the values inserted under that key with their multiplicity, however keys collide and however often the table grew; its size is the number of insertions.",
 ["inputs", "histories"], "all sequences of insert, lookup, growth, move, merge and filter over non-zero keys, all hash multipliers",
 "The existing tests do not build here and sample random keys only.",
 ["include/datastructures/LP_MultiMap.hxx"],
 [("insert", "include/datastructures/LP_MultiMap.hxx:LP_MultiMap::insert"), ("lookup", "include/datastructures/LP_MultiMap.hxx:LP_MultiMap::get"), ("growth", "include/datastructures/LP_MultiMap.hxx:LP_MultiMap::rehash")],
 state=[("m_keys/m_values", "table", "include/datastructures/LP_MultiMap.hxx")],
 observe=["insert", "get", "contains", "size"])

prop("C10", "Bit-set identifier set: single-element operations are exact",
 "In the bit-set of identifiers over a fixed range, inserting an identifier reports true exactly when it was absent and makes exactly that identifier present, and the membership test is true exactly for present identifiers. "
 "The reported number of elements always equals the number of present identifiers, also after merging another set in.",
 ["inputs", "histories"], "all identifier ranges, all identifiers in them, all histories of insert, test and merge",
 "The existing tests do not build here; they use a single range.",
 ["include/datastructures/Bit_Set.hxx"],
 [("bit addressing", "include/datastructures/Bit_Set.hxx:_block/_idx"), ("insert/test", "include/datastructures/Bit_Set.hxx:insert")],
 state=[("m_array", "bit blocks", "include/datastructures/Bit_Set.hxx"), ("m_ones", "population", "include/datastructures/Bit_Set.hxx")],
 observe=["insert", "isSet", "contains", "ones"])

prop("C11", "Point container: finite and infinite identifiers address distinct cells",
 "Every identifier classifies as finite or infinite by one fixed rule, and there are exactly 2^D infinite identifiers, the highest ones. "
 "In the point container every stored finite identifier and every infinite identifier addresses its own cell, and the membership test is true exactly for the stored finite identifiers other than the reserved zero entry and for the infinite identifiers.",
 ["inputs", "histories"], "all 64-bit identifiers, dimensions 2 and 3, all container sizes and offsets",
 "The existing tests do not build here and use offset 0 with few points; the classification is over the whole 64-bit domain.",
 ["include/Geometry.h", "include/datastructures/VectorAdapter2.hxx"],
 [("classification", "include/Geometry.h:dPoint::isFinite"), ("index mapping", "include/datastructures/VectorAdapter2.hxx:_finIdx/_infIdx"), ("membership", "include/Geometry.h:dPoints::contains")],
 state=[("m_offset", "first finite identifier", "include/datastructures/VectorAdapter2.hxx")],
 observe=["operator[]", "at", "contains"])

prop("C12", "Axis-aligned box tests agree with the geometric definition",
 "A box contains a point exactly when every coordinate lies between the bounds, boundaries included; it contains another box exactly when it contains all points of it. "
 "It contains a ball exactly when the center lies inside and no boundary face is closer than the radius, and it intersects a ball exactly when the distance from the center to the box does not exceed the radius.",
 ["inputs"], "all boxes with ordered bounds, points and balls with non-negative radius, dimensions 2 and 3, over exact arithmetic",
 "The stable tests do not include geometry; the geometry tests that exist check a few hand-picked boxes and spheres.",
 ["include/Geometry.h"],
 [("contains/intersects", "include/Geometry.h:dBox")], observe=["dBox::contains", "dBox::intersects"])

prop("C13", "Simplex adjacency and vertex queries are set operations on the vertices",
 "For simplices with strictly increasing vertex identifiers, the vertex membership test is true exactly for the vertices, the number of shared vertices is the size of the intersection of the two vertex sets, and two simplices are neighbours exactly when they share D vertices. "
 "A simplex is finite exactly when all its vertices are finite, and two simplices have equal neighbour lists exactly when the lists are equal position by position.",
 ["inputs"], "all pairs of vertex tuples with strictly increasing identifiers and all identifiers, dimensions 2 and 3",
 "The stable tests contain no simplex; other tests use a few fixed triangles.",
 ["include/Geometry.h"],
 [("merge-style intersection count", "include/Geometry.h:dSimplex::countSharedVertices"), ("membership with early exit", "include/Geometry.h:dSimplex::contains"), ("neighbour comparison", "include/Geometry.h:dSimplex::equalNeighbors")],
 observe=["contains", "countSharedVertices", "isNeighbor", "isFinite", "equalNeighbors"])

prop("C14", "Face fingerprints agree exactly for the common face of two simplices",
 "The fingerprint of a simplex depends only on its set of vertices, not on their order or on the neighbours, and whenever two simplices share a face the face fingerprints computed from the two sides are equal. "
 "A face fingerprint is never zero.",
 ["inputs"], "all vertex tuples, dimensions 2 and 3",
 "The merge step relies on it for every face of every triangulation; no stable test computes a fingerprint.",
 ["include/Geometry.h"],
 [("vertex mixing", "include/Geometry.h:dSimplex::_rol"), ("xor accumulation", "include/Geometry.h:dSimplex::genFingerprint"), ("face fingerprint", "include/Geometry.h:dSimplex::faceFingerprint")],
 state=[("vFingerprint", "xor of the vertex hashes", "include/Geometry.h")],
 observe=["fingerprint", "faceFingerprint"])

prop("C15", "Simplex comparison: equal identity or equal vertex sets",
 "Two simplices that both carry an identifier compare equal exactly when the identifiers are equal, and a simplex without identifier compares equal to one that has an identifier exactly when both have the same sorted vertices. "
 "Equality is symmetric, and the ordering used for sorted containers is the order of identifiers.",
 ["inputs"], "all pairs of simplices with sorted vertices and generated fingerprints, dimensions 2 and 3",
 "No stable test compares simplices.",
 ["include/Geometry.h"],
 [("equality", "include/Geometry.h:dSimplex::operator=="), ("vertex comparison", "include/Geometry.h:dSimplex::equalVertices")],
 observe=["operator==", "equalVertices", "operator<"])

prop("C16", "Orientation and in-sphere predicates return the exact sign",
 "For all finite double coordinates whose products neither overflow nor underflow, the adaptive orientation and in-circle/in-sphere predicates return a value with exactly the sign of the corresponding determinant of the real coordinates, including zero for exactly degenerate inputs. "
 "Exchanging two of the input points negates the sign.",
 ["inputs"], "all tuples of finite double coordinates without overflow/underflow, dimensions 2 and 3",
 "Wrong signs occur only for nearly degenerate inputs that reach the later adaptive stages; fixed test points are decided by the first filter.",
 ["src/utils/Predicates.cpp", "include/utils/Predicates.h"],
 [("filters and adaptive stages", "src/utils/Predicates.cpp:Predicates<2>/Predicates<3>"), ("expansion arithmetic", "src/utils/Predicates.cpp:PredicatesBase")],
 observe=["Predicates<D,Precision>::orient*d/incircle/insphere"])

prop("C17", "Simplex location predicates do not depend on the vertex order",
 "The in-circumsphere test of a non-degenerate simplex is true exactly for points strictly inside or on its circumsphere (given predicates that return the exact sign, at any scale at which those neither overflow nor underflow), and the in-simplex test, over exact arithmetic, exactly for points of the closed simplex; both whatever order the vertices are given in, called on the points or through a simplex and a collection of points.",
 ["inputs"], "all vertex orders, all points and non-degenerate simplices, dimensions 2 and 3",
 "The geometry tests do not build here and check single configurations.",
 ["src/lib/Geometry.cpp", "include/Geometry.h"],
 [("orientation normalisation", "src/lib/Geometry.cpp:GeometryCore::inSphere"), ("barycentric coordinates", "src/lib/Geometry.cpp:GeometryCore::inSimplex"), ("simplex members", "include/Geometry.h:dSimplex::inSphere/inSimplex, GeometryHelper")],
 observe=["GeometryCore::inSphere", "GeometryCore::inSimplex", "dSimplex::inSphere", "dSimplex::inSimplex"])

prop("C18", "The circumsphere passes through all vertices",
 "For every non-degenerate triangle and tetrahedron the computed circumsphere center has the same distance to all vertices and that distance is the returned radius, in exact arithmetic; called on the points or through a simplex and a collection of points.",
 ["inputs"], "all non-degenerate vertex tuples, dimensions 2 and 3, over exact arithmetic",
 "The geometry tests do not build here and check fixed simplices.",
 ["src/lib/Geometry.cpp", "include/Geometry.h"],
 [("closed-form circumcenter", "src/lib/Geometry.cpp:GeometryCore::circumsphere"), ("simplex member", "include/Geometry.h:dSimplex::circumsphere")],
 observe=["GeometryCore::circumsphere", "dSimplex::circumsphere"])

prop("C19", "Point statistics give the exact bounding box",
 "The statistics of a non-empty set of finite points give in each dimension the smallest and the largest coordinate that occurs and their midpoint (as long as their sum is a finite number), whatever the sign and magnitude of the coordinates and however the computation is divided among threads. "
 "Reading points from a file returns the bounding box of the points read, and appends them without changing earlier points.",
 ["inputs", "schedules"], "all non-empty point sets; every division of the point range",
 "No stable test computes statistics; tests of generated points use the unit cube only and never all-negative coordinates.",
 ["include/Partitioner.h", "include/Geometry.h"],
 [("sequential loop", "include/Partitioner.h:getPointStatsSeq"), ("parallel reduction", "include/Partitioner.h:getPointStats"), ("points read from a file", "include/Geometry.h:loadFromFile"), ("division of the range", "include/datastructures/LP_Set.hxx:range_type")],
 observe=["dPointStats min/mid/max", "box returned by loadFromFile"])

prop("C20", "Partitioning assigns each point to exactly one partition",
 "Every partitioning strategy of the divide-and-conquer step (d-way, one fixed dimension, cycling, widest extent), given a non-empty set of points and statistics that bound them, assigns each given finite point to exactly one partition, namely one whose bounds contain it, and, unless infinite points are to be ignored, adds every infinite point to each partition. "
 "No other identifier appears in any partition.",
 ["inputs", "configurations"], "all non-empty point sets (coinciding points included), all four strategies in 2 and 3 dimensions, all cycle positions, with and without infinite points",
 "The partitioners do not build with the stock setup; tests check generated points in the unit cube.",
 ["include/Partitioner.h", "src/lib/Partitioner.cpp"],
 [("strategies", "src/lib/Partitioner.cpp"), ("partition membership", "include/Partitioner.h:Partition")],
 observe=["partition contents", "partition bounds"])

prop("C21", "A run record survives being written to text and read back",
 "Writing a run record to its textual form yields every trait with its value, one separator between consecutive entries and nothing else (followed, on request, by the average of every measured name), and reading the text of the traits back yields a record with exactly the traits that are not ignored ones, with the same values, besides host and revision of the reading process, so that it compares equal to the original. This holds for all records whose names do not contain the inner separator and whose values contain no trait separator, not even together with the separator that follows them; empty names and values are allowed. Counters are not part of the text.",
 ["inputs"], "all records whose names and values contain no separator, any number of traits",
 "The stable test round-trips a single record.",
 ["include/utils/Timings.h", "src/utils/Timings.cpp"],
 [("writer", "src/utils/Timings.cpp:ExperimentRun::str"), ("reader", "src/utils/Timings.cpp:ExperimentRun(const std::string&)")],
 observe=["ExperimentRun equality after round trip", "written text"])

prop("C22", "Run-record lookup and comparison follow the recorded traits",
 "Recording a trait keeps the value recorded first, updating it replaces the value; numbers are recorded as their text. Looking up a trait returns the value recorded for it and is refused for names not recorded. Counter updates add up exactly (modulo 2^64), measurements are appended in order, and no update touches any other name. The profiler accessor forwards to the current record and does nothing without one. Two records compare equal exactly when they agree, in presence and value, on all traits other than git-rev, start-time, end-time, run-number and host.",
 ["inputs", "histories"], "all sequential histories of trait, counter and measurement updates, all pairs of records",
 "The stable test compares one record with its copy.",
 ["include/utils/Timings.h", "src/utils/Timings.cpp"],
 [("trait map and comparison", "include/utils/Timings.h:ExperimentRun"), ("comparison", "src/utils/Timings.cpp:operator==")], observe=["getTrait", "operator==", "counter", "measurements"])

prop("C23", "Average measurement is the arithmetic mean of the recorded samples",
 "The average reported for a name is the arithmetic mean, rounded down, of all measurements added for it, for any number of measurements whose sum fits 64 bits; names without measurements are refused, and asking changes nothing.",
 ["inputs", "histories"], "all non-empty measurement sequences whose sum fits 64 bits",
 "No stable test computes an average.",
 ["include/utils/Timings.h", "src/utils/Timings.cpp"],
 [("mean", "src/utils/Timings.cpp:avgMeasurement")], observe=["avgMeasurement"])

prop("C24", "Grid cells: each point lies in the cell it is mapped to",
 "For a uniform grid every point is mapped to the cell whose bounds contain it, the cell bounds of different cells do not overlap in their interior and tile the space, the centre of a cell is its midpoint, and a cell is reported to intersect a ball exactly when its bounds do. Arithmetic on coordinates is taken as exact.",
 ["inputs"], "all points and positive cell widths, over exact arithmetic",
 "The grid test does not build here and checks fixed points.",
 ["include/load_balancing/Grid.h"],
 [("index and bounds", "include/load_balancing/Grid.h:indexAt/boundsOf"), ("ball test", "include/load_balancing/Grid.h:intersectsWith")], observe=["indexAt", "boundsOf", "intersectsWith"])

prop("C25", "Splitting a box at a plane partitions it",
 "Splitting a box at a plane inside it yields two boxes whose union is the box and that meet only in the plane, the lower one first; enlarging a box by a point yields the smallest box containing both; the bounding box of a non-empty set of points is the smallest box containing them; the offset of a point to a box is, along each axis, its distance to the box, and the offset to the boundary of a point inside is the negated distance to the nearest face along its axis. Arithmetic on coordinates is taken as exact.",
 ["inputs"], "all non-empty boxes, split dimensions and positions inside the box, all points, all non-empty point sets; 2 and 3 dimensions",
 "No test covers these helpers.",
 ["include/load_balancing/BoxUtils.h"],
 [("split/enlarge/bounding box", "include/load_balancing/BoxUtils.h")], observe=["returned boxes"])

prop("C26", "Box-tree query reports an intersection exactly when some stored box is hit",
 "The box tree holds cells of the grid it was built for. Inserting a cell succeeds exactly when the cell lies inside the tree's bounds, and the bounds contain the cell of every point of the box given to the constructor, including points on its upper sides. A query with a ball reports an intersection exactly when the ball meets at least one cell inserted so far, for every insertion order and every repetition of cells.",
 ["inputs", "histories"], "all sets of inserted grid cells, all orders, all query balls; exact arithmetic",
 "No stable test covers the tree.",
 ["include/datastructures/AABBTree.h"],
 [("tree query and insertion", "include/datastructures/AABBTree.h")], observe=["insert", "intersects", "intersectingCells"])

prop("C27", "Identifier dispensers never hand out an identifier that is in use",
 "An identifier handed out by a dispenser stays in use until it is given back: identifiers in use are pairwise distinct, for the sequential dispenser over every history and for the concurrent one also under every interleaving of several threads; an identifier that was given back is reused only while reuse is enabled; the reported maximum lies above every identifier in use. The identifier set built for a point container holds exactly its finite points (offset + 1 to offset + size - 1) and its infinite points.",
 ["histories", "schedules"], "all sequences of requests and returns of identifiers in use; every point container",
 "No test covers it; duplicates need particular request sequences.",
 ["include/utils/IndexHandler.h", "include/utils/MakeIds.h"],
 [("dispenser", "include/utils/IndexHandler.h")], observe=["returned identifiers"])

prop("C28", "Separator-joined output reproduces every field in order",
 "Writing a sequence of fields as one separated line produces exactly the fields in order with one separator between consecutive fields, no leading or trailing separator, for any number of fields.",
 ["inputs"], "all field sequences", "The header is only syntax-checked by the stock build.",
 ["include/utils/CSV.h"], [("joining", "include/utils/CSV.h")], observe=["written text"])

prop("C29", "Point generators produce exactly the requested points inside the bounds",
 "Generating n points in a box with positive extent yields a container with exactly the identifiers 1..n, every one of them set to a position inside the box, for every distribution offered (uniform, normal, bubble, ellipsoid, skew lines, unbound bubbles), every n (also one not divisible by the number of bubbles or lines) and every seed; sorting the points afterwards only permutes them.",
 ["inputs", "configurations"], "all n, all boxes with positive extent, all distributions and random seeds; exact arithmetic",
 "No stable test generates points; other tests use the unit cube and round counts.",
 ["include/utils/Generator.h", "include/load_balancing/UnboundBubbleGenerator.h", "src/lib/SpatialSort.cpp"],
 [("distributions", "include/utils/Generator.h"), ("unbound bubbles", "include/load_balancing/UnboundBubbleGenerator.h")], observe=["generated container"])

prop("C30", "Log output contains exactly the entries at or below the requested verbosity",
 "Printing the log at a verbosity level emits, in the order they were created, exactly the recorded entries whose level does not exceed it, and nothing for the silent level; nested indentation of entries equals the current indentation depth.",
 ["inputs", "histories"], "all sequences of log calls, levels and indent changes",
 "No stable test covers the logger.",
 ["include/utils/Logger.h", "src/utils/Logger.cpp"],
 [("level filter", "src/utils/Logger.cpp:printLog"), ("indentation", "src/utils/Logger.cpp:indent")], observe=["printed text"])

prop("C31", "Parallel triangulation equals the sequential Delaunay triangulation",
 "For every point set, the triangulation produced by parallel divide and conquer is the Delaunay triangulation of the points: every circumsphere is empty, neighbour links are mutual and complete, no simplex is duplicated or missing, equal to the sequential result.",
 ["inputs", "schedules", "configurations"], "all point sets in general position, all schedules, thread counts and partitioners",
 "Tests check random points of one size on one schedule, and they do not build here.",
 ["src/lib/DCTriangulator.cpp", "include/LoadBalancedDCTriangulator.tpp", "src/lib/CGALTriangulator.cpp"],
 [("merge and neighbour update", "src/lib/DCTriangulator.cpp:mergeTriangulation/updateNeighbors")], observe=["dSimplices"])

prop("C32", "Concurrent identifier tables lose and duplicate nothing under any schedule",
 "Keys inserted concurrently into the growing hash tables are each present exactly once afterwards, exactly one of the concurrent insertions of a key reports success, and migration to a larger table loses nothing.",
 ["schedules", "histories"], "all interleavings of insert, lookup and table growth",
 "Tests run a few schedules; the loss needs a particular interleaving.",
 ["include/datastructures/LP_Set.hxx", "include/datastructures/Growing_LP.hxx"],
 [("compare-and-swap insertion", "include/datastructures/LP_Set.hxx:Concurrent_LP_Set::insert"), ("table migration", "include/datastructures/Growing_LP.hxx")], observe=["table contents after quiescence"])

prop("C33", "Cross check and verification find everything that is wrong with a triangulation",
 "For stores whose cells carry their generated fingerprints and whose links address the store's identifier range: crossCheck (own cells pairwise different) reports as missing exactly the cells of the other triangulation that have no own cell with the same vertices, as invalid exactly the own cells without such a partner, and is valid exactly when both lists are empty, the numbers of cells agree and every link of another cell leads to the vertices of a cell its partner links to. verify is valid exactly when every input point is a vertex, the cells of the hull are infinite and all infinite cells belong to it, no two cells have the same vertices, cells are linked exactly when they share a face, and no closed circumsphere of a cell holds the opposite vertex of a linked cell. One thing wrong never hides another one.",
 ["inputs", "schedules"], "all stores of cells and points, all partitions of the ranges among threads",
 "Tests compare valid triangulations only; the reports matter for the damaged ones.",
 ["src/lib/Geometry.cpp", "include/Geometry.h"], [("crossCheck", "src/lib/Geometry.cpp:dSimplices::crossCheck"), ("verify", "src/lib/Geometry.cpp:dSimplices::verify"), ("equality of cells", "include/Geometry.h:dSimplex::equalVertices")], observe=["VerificationReport", "CrossCheckReport"])

prop("C34", "Stored points and triangulations load back unchanged",
 "Saving points or a triangulation to an archive and loading it restores the same identifiers, coordinates, vertices, neighbours and ranges.",
 ["inputs"], "all containers", "No stable test stores containers.",
 ["include/utils/Serialization.hxx", "include/datastructures/BlockedArray2.hxx", "include/datastructures/VectorAdapter2.hxx"],
 [("serialize", "include/utils/Serialization.hxx")], observe=["loaded containers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
