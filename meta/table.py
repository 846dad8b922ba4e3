p("C01", "The collision engine's structures describe the same set of hazards",
  "After any sequence of registering, deregistering (immediate or deferred), committing, flushing and restoring snapshots, the set of dynamic hazards a collision engine lists, the hazards stored in its quadtree and the changes still owed to its proximity grid describe exactly the hazards that were registered and not yet deregistered, each with the shape it was registered with. A deferred removal stays invisible to queries until it is either committed or the same hazard is registered again, which makes it visible again. What the engine reports about its hazards, bounding box and quadtree is that state.",
  [H], "every history of hazard registrations, deferred and immediate removals, commits and flushes", "removals, deferred commits and re-registrations never occur in them.",
  ["cde-structures", "cde-access", "qtvec", "qtnode-maintain", "hpg-dirty", "qt-constrict"], rules=["restore.cde_restore"],
  state=[("dynamic hazards", "hazards of placed items", "jagua-rs/src/collision_detection/cd_engine.rs"), ("quadtree", "spatial index of all active hazards", "jagua-rs/src/collision_detection/quadtree/qt_node.rs")])
p("C02", "A layout's placed items and its collision hazards always coincide",
  "At every point, the items a layout reports as placed are exactly the placed-item hazards known to its collision engine, each with the item's shape under the reported transformation. Placing an item adds both, removing an item removes both and returns the placement that was there.",
  [H], "every history of placements and removals, immediate or deferred", "items are only ever added, never removed.", ["layout-sync", "item-construct", "cde-structures", "layout-queries", "layout-snapshot", "polygon-transform", "transformation"], rules=["restore.cde_restore"])
p("C03", "Restoring a layout snapshot brings back the exact snapshotted state",
  "A layout created from a snapshot, or an existing layout of the same bin restored to one, has the same identity, the same placed items under the same keys, and a collision engine with the same dynamic hazards, as the layout had when the snapshot was taken. Taking a snapshot first commits pending removals and changes nothing else.",
  [H], "every layout history before and after the snapshot", "snapshots are taken but never restored.", ["layout-snapshot", "layout-sync", "cde-structures", "qtvec", "qtnode-maintain", "hpg-dirty"], rules=["restore.cde_restore"])
p("C04", "Restoring a problem to a solution reproduces that solution",
  "After restoring a problem to a solution it produced earlier, the open layouts, the missing item quantities and the remaining bin stock equal those recorded in the solution, no matter what was placed, removed, opened or closed in between. A strip-packing problem also returns to the strip of the solution.",
  [H], "every history between creating the solution and restoring it", "no test ever restores a solution.", ["bp-restore", "sp-restore", "layout-snapshot", "cde-structures", "bp-solution", "sp-solution", "layout-sync", "problem-ids", "bp-quantities", "sp-quantities"], rules=["restore.bp_restore", "restore.cde_restore"])
p("C05", "Item demand and bin stock are conserved by every operation",
  "Placing an item lowers the missing quantity of that item by one and removing it raises it by one; opening a layout takes one bin of its type from stock and closing it returns one; no other quantity changes. A bin whose stock is zero is never opened.",
  [H, I], "every instance and every history of placements, removals, layout openings and closings", "removal and layout closing never occur.", ["bp-quantities", "sp-quantities", "problem-generic", "strip"])
p("C06", "Solutions report exactly what is placed",
  "A created solution carries a fresh id, a snapshot of every open layout, the placed and requested quantity of every item, the remaining bin stock and the area usage at the moment it was created. Completeness, missing quantities and placed counts derived from a solution follow from those numbers and the instance alone.",
  [H], "every problem state at the time the solution is created", "they look at usage only.", ["bp-solution", "sp-solution", "solution-report", "problem-generic", "layout-snapshot", "problem-ids", "bp-quantities"])
p("C07", "Only irrelevant hazards are ignored by a query",
  "A hazard is left out of a collision query exactly when the filter passed to it says so: an entity list ignores the listed entities, a quality filter ignores the quality zones that are at least as good as required, a combined filter ignores what either part ignores, and no filter ignores nothing.",
  [I], "every filter, every hazard set", "no instance with quality zones is tested and filters are only used in one way.", ["hazard-filter", "cde-queries", "qtnode-query", "qtnode-collect", "qtvec"])
p("C08", "Every bin feature becomes the right hazard",
  "The starting hazards of a bin are its exterior, each of its holes and each shape of each inferior-quality zone, under distinct identities that name the hole or the zone and its quality. Exterior and hole hazards are hit according to where matter must not be (outside for the exterior, inside for everything else), and bins with two zones of equal quality or an out-of-range quality are rejected.",
  [I], "every bin", "few instances have holes and none has quality zones.", ["bin-construct", "hazard-tables", "cde-queries", "qt-constrict"])
p("C09", "Collision queries consult every relevant hazard",
  "A polygon query reports a collision if and only if the polygon leaves the container, one of its edges meets a relevant hazard, or it contains or is contained by a relevant hazard; surrogate and single-edge queries report what their poles, piers or edge meet. The collecting variants return the same hazards, each once.",
  [I, H], "every polygon, transformation, hazard set and filter", "only the yes/no variants are exercised and only for the placements the heuristic samples.", ["cde-queries", "hazard-filter", "qtnode-query", "qtnode-collect", "qt-partial-query", "polygon-queries", "qtvec"])
p("C10", "Quadtree queries never skip a hazard that is there",
  "A query on any quadtree node answers with a hazard whenever a relevant active hazard stored at the node, or in the children it has to descend into, is hit by the queried shape, and with nothing otherwise. Hazards filling a node completely count as hit without further tests, partially present hazards are tested against their stored edges. Collecting collisions gathers every hazard that is hit, not just the first one, and none twice.",
  [I, H], "every quadtree content, queried edge, point or circle and filter", "they observe only the final packing quality.", ["qtnode-query", "qtnode-collect", "qt-partial-query", "qtvec", "hazard-filter", "edge-intersection", "circle-formulas", "rect-edge"])
p("C11", "The quadtree stores each hazard in every node it touches",
  "Registering a hazard stores in each quadtree node it meets exactly one entry whose kind (absent, partial, entire) and edge list are those of the hazard restricted to the node's rectangle, down to the maximum depth; deregistering, deactivating and activating reach every such entry and no other. Nodes are subdivided only when an active partial hazard requires it and merged again when none is left.",
  [H, I], "every sequence of registrations, deregistrations and (de)activations", "only insertion is exercised.", ["qtvec", "qtnode-maintain", "qt-constrict", "rect-edge", "rect-predicates"])
p("C12", "Rectangle operations follow their set-theoretic definition",
  "For all axis-aligned rectangles, intersection, containment, relation, quadrants, bounding rectangle, resizing, squaring and scaling give the rectangle or the relation defined by the four coordinates. Distances from a point to a rectangle and to its border are those to the nearest side, distance and squared distance agree, and an edge meets a rectangle when it has an end point in it or crosses one of its sides. Invalid rectangles are refused.",
  [I], "all rectangle coordinates", "rectangles appear only indirectly.", ["rect-predicates", "rect-construct", "rect-distance", "rect-edge"])
p("C13", "Resizing a strip keeps every item that still fits",
  "Changing the strip's width moves only the side that was asked for (back, front, or both around the occupied range), keeps the height, re-places every item that does not leave the new strip at its old position, gives the others back to the missing quantities and issues a new layout identity. The occupied range is the horizontal extent of all placed items, and fitting the strip never loses an item.",
  [H, I], "every strip-packing state and width", "the strip is never resized in front or centred.", ["strip", "sp-quantities", "layout-sync", "bin-construct"])
p("C14", "Instances and items are built exactly from their definitions",
  "An item keeps the id, shape, rotation set, quality, value and transformations it was created with, and demands its base quality of the material; an instance accepts items and bins only when their ids equal their positions and its item area is the quantity-weighted sum of item areas. A placement records the item, the transformation and the item's own filter.",
  [I], "every item, bin and instance", "only well-formed instances are used.", ["item-construct", "instance-construct", "hazard-filter"])
p("C15", "The generic problem behaves like the concrete problem inside it",
  "Every operation on the problem-type-agnostic wrapper has the same effect and result as the operation on the wrapped bin-packing or strip-packing problem.",
  [H, PR], "every operation on either wrapped problem", "several operations are never called.", ["problem-dispatch", "problem-generic", "problem-ids"])
p("C16", "Points, edges and circles follow their geometric formulas",
  "Distances, centroids, areas, diameters, bounding boxes, extensions and collision tests of points, edges and circles are those of Euclidean geometry, written over the shape's coordinates: the distance to an edge is the distance to the closest point of the segment, two circles collide when their centres are no further apart than the sum of their radii, distance and squared distance agree, and a distance from the border is reported with the right side (interior or exterior). The bounding circle of several circles covers each of them. A degenerate edge or a negative radius is refused.",
  [I], "all coordinates (as real numbers)", "geometry is only exercised through whole packing runs on integer-like coordinates.", ["point-formulas", "edge-formulas", "circle-formulas", "bounding-circle"])
p("C17", "Edge intersection is exact and symmetric over the reals",
  "Two edges are reported as colliding exactly when the segments share a point at a parameter between 0 and 1 on both (parallel edges never do), and the reported intersection is the point on the first edge at that parameter. An edge collides with a rectangle when it lies partly inside it or crosses one of its sides.",
  [I], "all edges and rectangles (coordinates as real numbers)", "which pairs of edges are tested depends on the packing run.", ["edge-intersection", "rect-edge"])
p("C18", "Transformations form a consistent algebra",
  "Rotating, translating, composing, inverting and decomposing transformations agree with multiplication of 3x3 affine matrices: composing applies the second after the first, decomposing and recomposing gives the same matrix, and a decomposed transformation carries the rotation and translation it was built from. Transforming a point, edge, circle or polygon applies the matrix to its coordinates.",
  [I], "all transformations (coordinates as real numbers)", "only rotate-then-translate compositions occur.", ["transformation"])
p("C19", "Transforming in place equals transforming a copy",
  "For every shape (point, edge, circle, simple polygon, surrogate), transforming it in place, transforming a clone, and overwriting a buffer shape from a reference shape give the same result, and every derived quantity kept with the shape (bounding box, point of inaccessibility, poles, piers, area, diameter) is the transformed or invariant value of the reference. Nothing of the buffer's previous content survives.",
  [I], "all shapes, buffers and transformations", "only buffers made from the same item are transformed.", ["polygon-transform", "point-formulas", "edge-formulas", "circle-formulas"])
p("C20", "Simple polygons are built and queried by their definition",
  "A polygon is accepted only with at least three distinct vertices; it is stored counterclockwise with the same vertex set, and its area, centroid, bounding box, diameter and edges are those of the vertex cycle, including the closing edge. A point is inside exactly when it is within the bounding box and a ray to the outside crosses the boundary an odd number of times, and distances to the polygon are the minimum over all its edges, or zero inside.",
  [I], "all vertex sequences and query points (coordinates as real numbers)", "they only use polygons that are already well-formed.", ["polygon-construct", "polygon-queries", "edge-intersection", "edge-formulas"])
p("C21", "A surrogate is made of pieces of its polygon",
  "The convex hull is the lower and the upper chain of the points in lexicographic order, grown with the orientation test on consecutive vertices, poles are circles at points of the polygon with radius the distance to the border and to the earlier poles, piers are clipped to the part inside the polygon (every pole and pier handed out was found that way, unchanged), and the fail-fast subsets are prefixes or all of what was generated, as configured.",
  [I], "all polygons and surrogate configurations", "a wrong surrogate only slows down or shifts the packing.", ["surrogate", "surrogate-none", "convex-hull", "piers", "polygon-queries", "edge-formulas"], rules=["provenance.poles", "provenance.piers"])
p("C22", "The hazard proximity grid never underestimates its obligations",
  "Every grid cell holds the distance from its centre to the nearest universal hazard (zero inside it) and, per quality, to the nearest quality zone; registering a hazard lowers the distance of every cell that the hazard's poles come closer to, spreading outwards from the pole until neighbours are provably unaffected, and removing a hazard recomputes, from the remaining hazards, every cell whose nearest hazard it was. A deferred removal marks the grid dirty until it is flushed, and a dirty grid is refused. A cell that might still accommodate an item is never ruled out.",
  [H, I], "every sequence of hazard registrations, removals and flushes on every grid", "cells are only ever updated by insertions.", ["hpg-cell", "hpg-update", "hpg-dirty", "hpg-grid", "hazard-filter"])
p("C23", "Grid indexing and boundary fill visit the right cells",
  "A grid places each element at the row and column of its coordinates, converts between indices and (row, column) without overlap, answers coordinate ranges with the rows and columns that cover them and neighbours with the eight adjacent cells (itself at the rim). The boundary fill visits each cell at most once, starts in the middle of its seed box, and continues from a cell exactly when that cell is inside the boundary, or, as long as no inside cell was found, within the seed box. The squares of a generated grid tile the bounding box from its lower left corner, all of one size, and one is left out only when a hazard covers its centre so deeply that it lies wholly inside.",
  [I, H], "all grids, seed boxes and reported positions", "the fill is only exercised on the grids of the test instances.", ["hpg-grid", "hpg-fill"])
p("C24", "Parsing reproduces the instance that was described",
  "Every item and bin of the JSON instance becomes exactly one item or bin at the same index, with the described shape (a closing vertex dropped, simplified only when configured: items, holes and quality zones may only grow, bins only shrink), demand, stock (unlimited when absent), value, required quality and allowed rotations (degrees become radians; none listed means continuous; only 0 means none). Centring moves a shape by minus its centroid and records that move. Specifying both or neither of bins and strip, or a quality out of range, is refused.",
  [I], "every JSON instance", "the test instances use few of the optional fields.", ["parse-instance", "parse-shape", "parse-transform", "polygon-construct", "item-construct", "instance-construct", "simplify"], rules=["formats.instance"])
p("C25", "A solution survives being written to and read from JSON",
  "Writing a solution reports each layout with its container, each placed item with its index and its absolute transformation, and the usage; reading it back opens the same containers and places the same items, and the absolute-to-internal transformation used for reading is the inverse of the internal-to-absolute one used for writing, for any pre-transformations of item and bin.",
  [I, H], "every solution and pre-transformation", "no test reads or writes a solution.", ["solution-io", "parse-transform", "transformation", "bp-solution", "sp-solution", "bin-construct", "strip"], rules=["formats.solution"])
p("C26", "Polygon simplification only grows or only shrinks, within its tolerance",
  "Simplifying a polygon removes vertices one at a time: when inflating only at corners that are concave seen from the inside (or by extending the two edges around a convex-convex pair until they meet in front), when deflating the mirror image, so the polygon only grows, respectively only shrinks. A step is taken only if the new edges cross no other edge of the polygon, if it is the valid step with the smallest change in area, and if the total change stays within the given fraction of the original area; fewer than four vertices are never reduced further.",
  [I], "all polygons, modes and tolerances (coordinates as real numbers)", "simplification is only run on the test instances' shapes with one tolerance.", ["simplify"])
p("C27", "Tolerant comparison is consistent with exact ordering",
  "Two values compared with tolerance are equal exactly when they are almost equal, equality and ordering agree with each other, and values that are not almost equal are ordered as the plain numbers are. Tolerant collision and relation tests of rectangles are the exact tests with every comparison replaced by the tolerant one.",
  [I], "all pairs of finite numbers", "ties are rare in the packing runs.", ["fpa", "rect-tolerant"])
p("C28", "The LBF optimizer only places items without collision",
  "A placement is proposed only for a transformation, in the searched layout and for the searched item, that collides with nothing relevant to the item, by both the surrogate and the full polygon, and it replaces an earlier proposal only if it is strictly better (weighted sum of the largest x and y). Layouts are searched in order, existing ones before templates with remaining stock, and the first with a placement wins. Items are placed only while still missing, in the very state that was searched; every item type gets its turn whatever became of the others; a strip without room is made wider at its back, and it is fitted to its items before the solution is created.",
  [H, I], "every instance, configuration, random seed and search history", "they only check that a run finishes with a feasible packing.", ["lbf-search", "lbf-sample", "ls-decay", "cde-queries"], rules=["lbf.solve"])
p("C29", "Sampled transformations respect the item's allowed rotations",
  "A sampled rotation is zero for an item that may not rotate, one of the listed angles for discrete rotations (a local search never leaves the angle it started from) and any angle for continuous rotation. A uniform sample puts the item's point of inaccessibility inside the sampled cell, cells are only those of the grid that may accommodate the item cut to the bin's bounding box, and a cell is dropped only when nothing in it can beat the best cost. A local search is centred on the best placement accepted so far; its spread decays exponentially from its initial to its final value with the share of the samples drawn.",
  [I], "every item, grid and random stream", "which rotations are sampled depends on the seed.", ["lbf-sample", "lbf-search", "ls-decay"], rules=["lbf.samplers", "lbf.shapes"])

p("C30", "A run with a fixed seed is reproducible",
  "Two runs on the same instance with the same configuration and the same seed make the same decisions and produce the same solution. Nothing in the library or the optimizer draws on unseeded randomness, wall-clock time, hash-table order, addresses, thread scheduling or the environment, except for logging; parallel work is only collected in its original order; a configured seed is the seed of the only random generator.",
  [C, H], "all pairs of runs of the program on the same input, on any machine and under any scheduling of its worker threads", "they run once per instance and never compare two runs.", [], rules=["effects.deterministic", "cli.seed"],
  observe=["lbf/src/main.rs", "lbf/src/lbf_optimizer.rs", "jagua-rs/src/collision_detection/cd_engine.rs"])
p("C31", "The command-line program solves what it read and writes what it solved",
  "The instance that is solved is the one parsed from the input file, with the configuration read from the configuration file (or the default one when none is given): its simplification tolerance, collision-engine settings, sample counts and seed reach the parser, the optimizer and the generator unchanged. The JSON output consists of the instance as read, the solution of that run and that configuration, and one SVG per layout of that solution is written, each under its own number. The configuration file's names mean what they say.",
  [I, C], "every input file and configuration", "no test runs the command-line program.", [], rules=["cli.main", "formats.config"], observe=["lbf/src/main.rs", "lbf/src/lbf_config.rs", "lbf/src/io/json_output.rs"])
p("C32", "Shared references never change the state behind them",
  "Operations that take the collision engine, a layout, a problem, an instance or a shape by shared reference (queries, solution and snapshot readers, statistics) leave it unchanged, so snapshots, solutions and instances that share their parts stay valid whatever is done elsewhere. No type of the library has interior mutability and nothing writes through raw pointers.",
  [H, PR], "every interleaving of queries and updates through any number of shared handles", "nothing is compared before and after a query.", [], rules=["effects.frozen"], observe=["jagua-rs/src/entities/layout.rs", "jagua-rs/src/collision_detection/cd_engine.rs", "jagua-rs/src/geometry/primitives/simple_polygon.rs"])
p("C33", "Geometric results survive floating-point rounding",
  "Collision answers, areas and distances computed in f32 or f64 differ from the exact real-number result by no more than the rounding of the inputs, so no overlapping placement is ever accepted because of rounding.",
  [I], "all floating-point coordinates", "they use coordinates where rounding does not matter.",
  na="Rounding error is a quantity of the run-time operands: bounding it needs a numeric error analysis per input range, and no bound independent of the coordinates exists (the code itself uses tolerances). The checks compare formulas over exact reals instead.", observe=["jagua-rs/src/geometry/primitives/edge.rs"])
p("C34", "The optimizer and the library's searches always terminate",
  "Every run of the optimizer, of the grid's boundary fill, of polygon simplification and of pole generation ends after finitely many steps, for every instance and configuration.",
  [I, C], "every instance and configuration", "only a few instances are run.",
  na="Termination of these loops rests on numeric progress (a strip widened by a factor until an item fits, areas shrinking below a goal, a floating-point heap emptying) that no structural ranking argument over the IR bounds.", observe=["lbf/src/lbf_optimizer.rs"])
p("C35", "Packings found by the optimizer are dense",
  "The density of the returned packing is no lower than that of earlier versions of the heuristic on the same instance and seed.",
  [I], "every instance and seed", "they assert no density.",
  na="Solution quality is an outcome of a randomised search on concrete numbers; it is measured, not derived from source.", observe=["lbf/src/lbf_optimizer.rs"])
p("C36", "Poles cover the polygon as far as the coverage goal asks",
  "The poles of a surrogate cover at least the configured fraction of the polygon's area unless their maximum number was reached, and each is the largest circle that still fits up to the configured precision.",
  [I], "all polygons and configurations (numeric)", "coverage is never computed.",
  na="The largest inscribed circle comes from a best-first search over cells with numeric bounds; its optimality is a numeric statement about run-time distances. That every accepted pole was found inside the polygon and passed on unchanged is claimed in C21.", observe=["jagua-rs/src/geometry/fail_fast/poi.rs"])
