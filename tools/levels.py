T = "TLA+/TLC: "
B = ("Every recorded run of the real code is checked by TLC against the specification; inputs are generated (one family exhaustively, the others at random from VERIF_SEED), so absence of violations is bounded by what was explored. "
     "Trusted: TLC, the recording harness's projection; for curves also its flattening.")
NOTES = {
 "P01": (T + "trace validation against BoolOp/Geometry (exact integer windings)", B),
 "P02": (T + "trace validation against Contours (closedness, orientation, winding)", B),
 "P03": (T + "trace validation against Contours (forest, chains, grouping)", B),
 "P04": (T + "trace validation with measured boundary deviation", B),
 "P05": (T + "trace validation: every call ends with a result; watchdog on CPU time", B),
 "P20": (T + "trace validation against CellComplex: results are exactly the boundary edges, each once", B),
 "P09": (T + "trace validation at magnitudes 2^-70..2^280 with the automatic accuracy", B),
 "P10": (T + "state machine Determinism; TLC-generated schedules of calls on threads and in another process, fingerprints of all answers", B + " Interleavings inside calls are the operating system's."),
 "P11": (T + "state machine SweepLine; recorded sweeps: presence, order by interval geometry at three heights per gap", B),
 "P12": (T + "state machine SweepLine; recorded sweeps: strands, batches, connections and positions of every line", B),
 "P19": (T + "B-tree model refines a list (exhaustive for small trees); TLC-generated and random histories replayed into the container", "Exhaustive for the model up to the stated size; the real container is replayed on generated histories for node sizes 4-8 and 128. Trusted: TLC, the replayer."),
 "P13": (T + "PlanarMap: recorded arrangements checked around every vertex, beside every segment against exact windings, for coverage and links", B),
 "P14": (T + "PlanarMap: region of random predicates of user data against exact windings of up to four tagged inputs", B),
 "P15": (T + "PlanarMap: measured shape, deviation and left-to-right order of drawn curves", B + " Order of drawn curves is judged beyond two accuracies (four on grids finer than the accuracy), and beyond rounding inside a common approximation."),
 "P16": (T + "state machine SegmentsArena; TLC-generated and random histories of additions, whole store compared after each", B),
 "P17": (T + "CurveOrder; labels of recorded comparisons against independently measured distances at critical heights", B),
 "P18": (T + "CurveOrder algebra (queries, mirror, widening) and cache machine over recorded answers", B),
 "P06": (T + "state machine Validation reads both operands element by element; TLC-generated and random operands, answers of all entry points", B),
 "P07": (T + "state machine Rewrite (effect of 16 kinds of rewriting on windings); TLC-generated programs of rewrites replayed, results judged after each step", B),
 "P08": (T + "register machine SetAlgebra; TLC-generated and random programs of chained operations replayed, winding numbers after each step", B + " Laws are invariants of the machine; regions are judged at sample points away from the accumulated boundaries and by emptiness."),
}
