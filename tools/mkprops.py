#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
      why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
        mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=hook)))

prop("P01", "A boolean operation keeps exactly the points it should",
 "For any two closed sets of paths, any fill rule and any of union, intersection, difference and xor, a point that is farther than a small multiple of the accuracy from every input curve lies inside the result exactly when the operation applied to 'inside the first set' and 'inside the second set' (each decided by the fill rule from the set's winding number at that point) is true. This holds for degenerate inputs too: coincident and overlapping edges, repeated contours, vertices on edges, spikes, horizontal edges, touching shapes, tangent curves.",
 ["inputs"], "all pairs of finite closed path sets, all four operations, both fill rules, every usable accuracy",
 "The tests compare a few dozen hand-made scenes with stored pictures and check a handful of polygons; nearly all pairs of paths, degenerate configurations and rule/operation combinations are never evaluated, and no test compares with an independently computed answer.",
 ["src/lib.rs", "src/topology.rs", "src/sweep/sweep_line.rs", "src/sweep/range.rs"],
 [("binary_op / binary_op_with_eps choose the inside predicate", "src/lib.rs"), ("winding numbers are propagated along the sweep line", "src/topology.rs: from_segments / process_..."), ("merge_coincident removes cancelling segments", "src/topology.rs")],
 observe=["the contours returned by binary_op and binary_op_with_eps"])

prop("P02", "Result contours are closed, finite and wind exactly once around the result",
 "Every contour of a result is a closed path with finite coordinates, and away from the boundary the total winding number of the result's contours is 0 outside the result and exactly one turn inside, always of the same sign. A contour marked as outer encloses area counter-clockwise (in coordinates where y grows downwards) and a contour not marked as outer encloses it clockwise, so the result always lies on the same side of its boundary and the even-odd and non-zero readings of a result agree.",
 ["inputs"], "all contours of all results of all operations on finite closed inputs",
 "The unit tests never compute a winding number of an output; the rendered snapshots are filled with one fill rule and cannot show doubled contours, reversed contours or contours that are open by a little.",
 ["src/topology.rs", "src/position.rs"],
 [("contours(): walk of boundary half-segments, splitting at repeated points", "src/topology.rs: contours"), ("positions of consecutive segments share their end points", "src/position.rs")],
 observe=["Contour.path and Contour.outer of every returned contour"])

prop("P03", "The contour hierarchy mirrors geometric containment",
 "Every point that is away from the boundary is enclosed by a set of contours that is exactly one chain of the hierarchy, from a root down: if a point is inside a contour it is inside that contour's parent, and two contours that enclose a common point are ancestor and descendant. Roots are outer contours, outer and inner contours alternate along every chain, parents form a forest without cycles, and grouping lists every contour exactly once, each group being one root followed by precisely its descendants.",
 ["inputs"], "all results of all operations, in particular nested, touching and corner-sharing regions",
 "The tests for the hierarchy cover four hand-made nestings; touching contours, shared corners and deep or wide nestings produced by arbitrary operations are not covered.",
 ["src/topology.rs"],
 [("parent determination from the west neighbour of a contour's first segment", "src/topology.rs: contours"), ("Contours::grouped", "src/topology.rs")],
 observe=["Contour.parent, Contour.outer, Contours::grouped"])

prop("P04", "Result boundaries never stray from the input curves",
 "Every point of every contour of a result lies within a small multiple of the accuracy of some input curve; no result has a boundary where no input has one. Correspondingly every result stays within the bounding box of the inputs up to that distance.",
 ["inputs"], "all results for all finite closed inputs, at all accuracies",
 "Snapshot pictures are compared by rendering at one resolution; a stray piece of boundary smaller than a pixel or in an input that is not in the collection goes unseen.",
 ["src/position.rs", "src/topology.rs", "src/curve/mod.rs"],
 [("ordered_curves / approximations are built within the accuracy", "src/position.rs"), ("merging of collinear output segments is checked against the accuracy", "src/topology.rs: can_merge")],
 observe=["Contour.path of every returned contour"])

prop("P05", "Every finite closed input is answered",
 "For any finite closed input, including empty paths, single points, zero-area shapes, repeated vertices, very many crossings in one place, hundreds of segments at the same height, and curves of any shape, an operation returns a result after a bounded amount of work; it never panics, never runs forever and never reports an error.",
 ["inputs"], "all finite closed path sets of moderate size",
 "Termination and absence of panics are claims about every input; the property tests in the repository sample small random polygons in debug mode only and the curve generators are narrow.",
 ["src/lib.rs", "src/sweep/sweep_line.rs", "src/topology.rs", "src/curve/mod.rs", "src/position.rs", "src/treevec.rs"],
 [("the sweep line advances monotonically", "src/sweep/sweep_line.rs"), ("intersection subdivision terminates", "src/curve/mod.rs: intersect_cubics_rec")],
 observe=["return of binary_op / binary_op_with_eps"])

prop("P06", "Unusable input is refused with the matching error",
 "If either input of binary_op contains a coordinate that is not a number or is infinite (end points or control points, in any position), or a subpath that does not end where it starts and is not explicitly closed, it returns an error of the corresponding kind instead of a result - for an open subpath (of otherwise finite inputs), naming its actual end points. With several kinds of defects, the error names one that is there. Operations with an explicit accuracy and the topology constructors, which do not promise to find values that are not finite, refuse open subpaths in the same way. Inputs without such defects are never refused.",
 ["inputs"], "all paths, all positions and combinations of defects, both operands",
 "The tests try one or two defective paths; that a defect is found at every position of every element kind in either operand is not tested.",
 ["src/lib.rs", "src/segments.rs"],
 [("finite-coordinate checks", "src/lib.rs: binary_op"), ("closedness check while adding a path", "src/segments.rs: add_bez_path")],
 observe=["the Result of binary_op and binary_op_with_eps"])

prop("P07", "Results do not depend on how the inputs are written down",
 "Reversing all subpaths, starting a subpath at another vertex, reordering subpaths, inserting points on edges, splitting curves, writing lines as curves, changing between implicit and explicit closing, adding empty or zero-length pieces, and exchanging the operands of a symmetric operation do not change the region of the result, away from the boundary. Translating, mirroring or scaling both inputs (and the accuracy) transforms the resulting region in the same way (for accuracies no finer than would be chosen automatically).",
 ["inputs", "programs"], "all inputs, all sequences of such rewrites",
 "Tests use one spelling of each input; equivalence over all spellings is a relation between pairs of runs that no test examines.",
 ["src/lib.rs", "src/segments.rs", "src/sweep/sweep_line.rs", "src/topology.rs"],
 [("segments are stored in sweep orientation with a direction flag", "src/segments.rs"), ("closing elements are added implicitly", "src/segments.rs: add_bez_path")],
 observe=["regions of the results before and after each rewrite"])

prop("P08", "Results can be fed back: the laws of set algebra hold between results",
 "A result is itself a valid closed input, and using results as inputs of further operations gives the regions that set algebra demands: for instance a result united or intersected with itself is unchanged, difference followed by union with the intersection gives back the first operand, xor equals union minus intersection, and disjoint pieces stay disjoint. This holds along any sequence of operations, away from the accumulated boundaries.",
 ["histories", "inputs"], "all sequences of operations whose operands are inputs or earlier results",
 "No test feeds an output back into an operation; outputs contain tiny perturbations and nearly coincident edges that fresh inputs never contain.",
 ["src/lib.rs", "src/topology.rs", "src/position.rs"],
 [("contours are closed bit for bit", "src/topology.rs: contours"), ("nearly coincident segments are merged or ordered consistently", "src/sweep/sweep_line.rs")],
 observe=["results of chained binary_op calls"])

prop("P09", "The default accuracy works at every coordinate magnitude",
 "With the accuracy chosen automatically, inputs with coordinates of any finite magnitude, from tiny to very large and near or far from the origin, give a result whose region is right up to a distance proportional to the larger of a fixed tiny length and a fixed tiny fraction of the largest coordinate, without hanging or panicking.",
 ["inputs"], "all shapes at all scales and offsets for which the geometry fits double precision",
 "The tests only use coordinates of ordinary size; the relation between accuracy, magnitude and rounding is a claim about the full floating-point range.",
 ["src/lib.rs", "src/sweep/sweep_line.rs", "src/num.rs"],
 [("choice of the accuracy from the bounding box", "src/lib.rs: binary_op")],
 observe=["results of binary_op at scaled and shifted coordinates"])

prop("P10", "Operations are deterministic",
 "Calling an operation twice on equal inputs gives identical results - the same contours, in the same order, with bit-identical coordinates and the same hierarchy - within one process, in different processes and regardless of which calls were made before or of calls running at the same time on other threads.",
 ["histories", "schedules"], "all inputs, all interleavings with other calls",
 "Tests run each scene once; a dependence on hash seeds, addresses, call history or threads shows only when runs are compared.",
 ["src/lib.rs", "src/topology.rs", "src/order.rs", "src/sweep/sweep_line.rs"],
 [("no global state; maps whose iteration order matters are not hashed", "src/")],
 observe=["bitwise fingerprints of results"])

prop("P11", "Every sweep line lists exactly the segments present, in left-to-right order",
 "The sweep visits heights in strictly increasing order, among them every height at which a segment starts or ends, and on each line and between consecutive lines it lists exactly the segments that cross that height, each once. At any height the listed order agrees with the true horizontal order of the segments up to the accuracy: no segment is listed before one that lies clearly to its left (beyond a few accuracies, measured within a few accuracies of that height; along almost horizontal pieces, where a height does not determine a position, the order is not judged).",
 ["inputs", "histories"], "all closed sets of segments, all heights of the sweep",
 "The sweep tests compare two or three hand-drawn scenes with snapshots and check ordering only at the swept heights by internal assertions that are compiled out of release builds.",
 ["src/sweep/sweep_line.rs", "src/sweep/range.rs", "src/treevec.rs", "src/order.rs"],
 [("intersection events are scanned for on every insertion, removal and exchange", "src/sweep/sweep_line.rs: intersection_scan"), ("weakly ordered line with slop", "src/sweep/sweep_line.rs: SegmentOrder")],
 observe=["Sweeper::next_line and the ranges of each SweepLine"])

prop("P12", "Sweep events chain into one unbroken strand per segment",
 "Taken in sweep order, the events of one segment form exactly one strand: it appears once where the segment starts, disappears once where it ends, and in between each line either continues it where the previous line left it, or moves it sideways by an explicit horizontal connection; events of one line are ordered left to right and each event stays within a few accuracies of its segment, or of an almost horizontal piece that it is moved along. Within one changed range the positions never contradict the left-to-right order of the strands above and below the line, and successive ranges do not overlap by more than a few accuracies.",
 ["inputs", "histories"], "all closed sets of segments, all sweep lines and all changed ranges",
 "The output events are only consumed internally; no test follows a segment's strand through a sweep.",
 ["src/sweep/sweep_line.rs", "src/sweep/output_event.rs", "src/sweep/range.rs"],
 [("range events are computed from old and new order", "src/sweep/range.rs"), ("horizontal segments are attached to the ranges they cover", "src/sweep/sweep_line.rs")],
 observe=["OutputEvent sequences from SweepLineRange::events"])

prop("P13", "The arrangement is a consistent planar map",
 "In the computed arrangement the winding data on both sides of all segments meeting at a point agree when going around that point, the side data of every output segment equal the winding numbers of the input at points beside it, and the difference between its two sides is the contribution of the input segments it stands for. Every part of every input that separates differently wound regions is represented, neighbours are found at shared end points, and the reported bounding box contains everything.",
 ["inputs"], "all closed path sets, all output segments and vertices",
 "The repository checks local consistency by internal assertions that only run in debug builds on the test scenes.",
 ["src/topology.rs"],
 [("point neighbours are linked in clockwise order", "src/topology.rs: PointNeighbors"), ("winding numbers accumulate left to right along the sweep line", "src/topology.rs")],
 observe=["Topology's public accessors"])

prop("P14", "User-defined winding data gives right answers for any number of inputs",
 "With user-defined winding data and any number of tagged input paths, the side data of every segment equals the combination of the contributions of the inputs that enclose that side, so that for any predicate of that data the extracted contours bound exactly the points whose data satisfy the predicate. In particular the region computed for two inputs equals the one from the two-operand interface.",
 ["inputs", "programs"], "all families of inputs, all winding data, all predicates",
 "Only two examples use custom data, and nothing checks their output.",
 ["src/topology.rs"],
 [("WindingNumber trait", "src/topology.rs"), ("from_paths attaches a tag to every contour", "src/topology.rs")],
 observe=["Topology::from_paths, winding accessors, contours(predicate)"])

prop("P15", "Positioned output curves connect and keep their order",
 "The curve drawn for every segment of an arrangement starts and ends exactly at the segment's two end points, never goes back up, and stays within a small multiple of the accuracy of the input curve it came from. Curves that are neighbours keep their left-to-right order: no drawn curve crosses another one that was placed beside it by more than about the accuracy, and two curves that run so close that they have to be approximated together don't cross at all beyond rounding, wherever in the plane they are.",
 ["inputs"], "all arrangements of lines and curves at all accuracies",
 "Only rendered snapshots look at positioned curves.",
 ["src/position.rs", "src/perturbation.rs", "src/curve/mod.rs"],
 [("ordered_curves: perturbation of bunches of curves that come close", "src/position.rs")],
 observe=["Topology::compute_positions"])

prop("P16", "The segment store mirrors the paths that were added",
 "After any sequence of additions (polylines, closed and open curve paths, failed additions), the stored segments are exactly the pieces of the successfully added paths (pieces without any extent may be kept or dropped), each monotone in height, together tracing each path in order; following successors visits each contour cyclically and ends at the ends of open paths, predecessors invert successors, and the recorded directions match the direction of travel. The lists of entering and leaving heights contain each segment exactly once in order, and a failed addition leaves the store as it was.",
 ["histories", "inputs"], "all sequences of additions of all path kinds",
 "The tests add one or two paths; mixed sequences, failed additions followed by more additions, and single-segment contours are not tried.",
 ["src/segments.rs"],
 [("contour links are patched when a path ends", "src/segments.rs"), ("curves are split at vertical extrema", "src/segments.rs, src/curve/mod.rs: monotonic_pieces")],
 observe=["Segments' public accessors after every call"])

prop("P17", "Comparing two curves agrees with their geometry at every height",
 "The left-to-right comparison of two height-monotone curves divides their whole common height range, without gap or overlap, into stretches labelled left, right or close: wherever the curves are farther apart horizontally than the documented tolerance plus accuracy the label says which one is left, and wherever they are closer than tolerance minus accuracy the label is 'close'. As documented the heights at which labels change may be off by a few times the accuracy, which matters for almost horizontal curves.",
 ["inputs"], "all pairs of monotone curves with overlapping heights, all tolerances and accuracies",
 "Random tests exist for one tolerance and check a few heights; nearly parallel, tangent, nearly horizontal, extremely short and huge curves are not covered.",
 ["src/curve/mod.rs", "src/curve/transverse.rs", "src/curve/split_quad.rs", "src/geom.rs"],
 [("intersect_cubics: recursive subdivision with certified quadratic bounds", "src/curve/mod.rs")],
 observe=["intersect_cubics and the returned order"])

prop("P18", "Queries on a curve comparison obey its algebra",
 "Exchanging the two curves mirrors the comparison, the answer at a height is the label of the stretch containing it, the next definite order after a height and the next height at which curves may meet are those of the list of stretches, and widening by vertical slop never turns one definite order into the opposite one nor removes a 'close' stretch. A cached comparison always equals a freshly computed one, whatever was asked before, including with the curves exchanged.",
 ["inputs", "histories"], "all comparisons and all sequences of queries",
 "Tests evaluate single hand-made comparisons; query sequences through the cache are only exercised indirectly.",
 ["src/curve/mod.rs", "src/order.rs"],
 [("CurveOrder methods", "src/curve/mod.rs"), ("ComparisonCache", "src/order.rs")],
 observe=["CurveOrder queries, ComparisonCache::compare_segments"])

prop("P19", "The balanced sequence container behaves like a plain list",
 "Under any sequence of insertions, removals, range removals, searches and iterations, the tree-structured sequence returns exactly what a plain list would: same elements in the same order, same lengths, same answers for positions and ranges, same first position satisfying a monotone predicate. No operation loses, duplicates or reorders elements, however large or unbalanced the history.",
 ["histories"], "all operation histories at all sizes and node capacities",
 "A fuzz target exists but is not run by the tests; unit tests use short fixed histories.",
 ["src/treevec.rs"],
 [("splitting and merging of nodes", "src/treevec.rs")],
 observe=["return values of TreeVec's public operations"])

prop("P20", "Shared boundaries cancel or merge completely",
 "Where boundaries of the inputs coincide exactly, the result has the boundary once or not at all: a shape minus itself and a shape xor itself have no contours of non-negligible area, a union or intersection of a shape with itself has the same outline as the shape alone, and regions that share an edge unite without a seam. Where whole edges with common end points coincide, the edge appears in the result at most once (where edges coincide only in part, up to rounding, nothing wider than the accuracy is left of the seam).",
 ["inputs"], "all inputs with exactly coincident pieces: equal shapes, shared edges, partially overlapping collinear edges, repeated contours",
 "The tests contain a few squares that share an edge.",
 ["src/topology.rs", "src/sweep/sweep_line.rs"],
 [("merge_coincident", "src/topology.rs"), ("segments close to each other are ordered consistently", "src/sweep/sweep_line.rs")],
 observe=["contours of the results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
