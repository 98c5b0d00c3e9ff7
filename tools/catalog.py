"""The single source of properties.jsonl, MANIFEST.json, the stages check.py runs
and the per-property part of DESIGN.md (python3 tools/mkdocs.py regenerates them)."""
PROPS = {}
SRC = 'include/fcl/'
NP = SRC + 'narrowphase/'
ND = NP + 'detail/'


def P(pid, title, statement, over, qtext, why, files, mech, observe, decide, rule, stages, note, assumptions=(), state=()):
    assert len(title) <= 80, title
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, decide=decide, rule=rule,
                      stages=stages, note=note, assumptions=list(assumptions), state=list(state))


def S(harness, mult=1, tmult=None, wall=120, only=None, asan=0, fuzz=False, cfg='rel', cpu=30):
    """quick: native build; thorough: native for long, then ASan/UBSan, then optionally libFuzzer."""
    r = [dict(cfg=cfg, harness=harness, mult=mult, wall=wall, tier='quick', cpu=cpu),
         dict(cfg=cfg, harness=harness, mult=tmult or 1, wall=360, tier='thorough', cpu=cpu)]
    if asan:
        r.append(dict(cfg='asan', harness=harness, mult=asan, wall=120, tier='thorough', cpu=120))
    if fuzz:
        r.append(dict(cfg='fuzz', harness=harness, wall=120, tier='thorough'))
    for s in r:
        if only:
            s['only'] = only
    return r


REFNOTE = ('Random exploration with a fixed number of cases per run, a failing case must fail in 3 of 3 fresh processes and is shrunk; the oracle is the reference geometry of harness/ref.h '
           '(own GJK with a dual certificate, exact polytope depths, certified bounds), which shares no code with fcl. ')

P('C01', 'Collision verdicts between shapes agree with geometry',
  'For every pair of supported shapes at every pose, with either narrow-phase solver and whether or not contacts are requested, a collision query reports a collision if the shapes overlap and none if they are apart. '
  'Only pairs within a thousandth of their size of touching may be answered either way.',
  ['inputs', 'configurations'], 'all shape kinds (box, sphere, capsule, cylinder, cone, ellipsoid, convex polytope, half-space, plane) in both orders, all sizes and poses, both solvers, contact requests on and off',
  'The tests try a few dozen fixed placements per pair, mostly axis aligned and mostly with the default solver; the verdict must hold over a 12-dimensional space of poses and sizes and across specialised and iterative routines.',
  [NP + 'collision-inl.h', ND + 'gjk_solver_libccd-inl.h', ND + 'gjk_solver_indep-inl.h', ND + 'convexity_based_algorithm', ND + 'primitive_shape_algorithm'],
  [('pairwise dispatch', ND + 'collision_func_matrix-inl.h:CollisionFunctionMatrix'), ('closed-form shape pairs', ND + 'primitive_shape_algorithm/*-inl.h'), ('iterative solvers', ND + 'convexity_based_algorithm/{gjk,epa,gjk_libccd}-inl.h')],
  ['collide() return value and CollisionResult::isCollision'],
  'Random pairs are placed so that their supports along a random direction leave a drawn gap (both signs, hair gaps included); the reference gives certified lower and upper bounds on the signed distance, and collide() must agree whenever the bounds exclude a band of 1e-3 of the larger object. '
  'The tests cannot reach this because they fix the placement; here sizes span a factor 30, poses include axis permutations, tiny rotations and general ones, and every ordered pair of kinds comes with both solvers.',
  'pairs of shapes placed near contact; non-trivial: the reference signed distance is certified outside the tolerance band and no larger than the size of the bigger shape',
  S('shapes', 20, 6, asan=0.3, fuzz=True), REFNOTE + 'Tolerance 1e-3 of the larger object. Pairs of half-spaces and planes are decided analytically in a sub-property of their own (parallel, opposite and slightly tilted normals included).')

P('C02', 'Distances between bounded shapes agree with geometry',
  'For every pair of bounded shapes at every pose and with either solver, a distance query between separated shapes returns their minimum distance, with nearest points that lie on the two shapes and are that far apart. '
  'Overlapping shapes yield a value that is not positive, and the returned value always equals the one stored in the result.',
  ['inputs', 'configurations'], 'all bounded shape kinds in both orders, all sizes and poses, both solvers, nearest points on and off',
  'Distance tests use a handful of pairs (spheres, boxes, cylinders) at hand-picked poses; convergence of the iterative solvers depends on the pose in ways only a sweep reveals.',
  [NP + 'distance-inl.h', ND + 'gjk_solver_libccd-inl.h', ND + 'gjk_solver_indep-inl.h', ND + 'convexity_based_algorithm', ND + 'primitive_shape_algorithm'],
  [('distance dispatch', ND + 'distance_func_matrix-inl.h'), ('GJK distance (built-in)', ND + 'convexity_based_algorithm/gjk-inl.h:GJK::evaluate'), ('GJK distance (libccd)', ND + 'convexity_based_algorithm/gjk_libccd-inl.h:_ccdDist'), ('closed-form pairs', ND + 'primitive_shape_algorithm/sphere_*-inl.h, capsule_capsule-inl.h')],
  ['distance() return value', 'DistanceResult::min_distance', 'DistanceResult::nearest_points'],
  'Same generator as C01; the value must lie in the certified interval widened by 1e-3 of the larger object, and the witness points must lie in their shapes and realise the value within ten times that.',
  'pairs of bounded shapes; non-trivial: certified separated or overlapping by more than the tolerance',
  S('shapes', 20, 6, asan=0.3, fuzz=True), REFNOTE + 'Distances from a half-space or plane are unimplemented in fcl (known finding) and not generated.')

P('C03', 'Contacts describe how to separate two overlapping shapes',
  'Every contact reported for overlapping shapes names the two queried objects, carries a unit normal from the first to the second, a non-negative depth and a position in the overlap region. '
  'Where the solver is exact, moving the second object by the deepest contact along the normal separates the objects and no shorter move does; the approximate solver never reports more depth than the real overlap along its normal.',
  ['inputs', 'configurations'], 'all overlapping pairs of supported shapes, both solvers, all sizes and poses',
  'Contact tests compare with hand-computed contacts of axis-aligned placements and accept flipped signs or skip the depth; the sign, frame and minimality have to hold for rotated and off-centre pairs too.',
  [ND + 'gjk_solver_indep-inl.h', ND + 'gjk_solver_libccd-inl.h', ND + 'convexity_based_algorithm/epa-inl.h', ND + 'primitive_shape_algorithm'],
  [('closed-form contacts', ND + 'primitive_shape_algorithm/{box_box,halfspace,plane,sphere_*}-inl.h'), ('EPA', ND + 'convexity_based_algorithm/epa-inl.h'), ('MPR', ND + 'convexity_based_algorithm/gjk_libccd-inl.h:GJKCollide'), ('contact assembly', ND + 'traversal/collision/shape_collision_traversal_node-inl.h')],
  ['CollisionResult::getContact'],
  'For each contact the residual overlap after the promised separating move is computed with the support functions of the reference shapes, and the depth is compared with the reference penetration depth. EPA results count as wrong only if they stay wrong under six small moves (isolated numerically degenerate poses exist); MPR results are bounded from above per contact and judged for separation over batches of 20 poses.',
  'overlapping pairs of shapes with contacts requested; non-trivial: certified overlap of at least 1e-2 of the larger object',
  S('shapes', 10, 6, asan=0.3), REFNOTE + 'The closed-form box-box contact may prefer a face 5% deeper than the minimum (by design).')

P('C04', 'Signed distance is minus the penetration depth of overlapping shapes',
  'With signed distances requested, a query between bounded shapes returns their distance when apart and minus the minimum penetration depth when they overlap, the same value it stores in the result. '
  'With the default solver the witness points then lie on the two boundaries and are that far apart.',
  ['inputs', 'configurations'], 'all bounded shape pairs, sizes and poses, both solvers, deep and shallow overlap',
  'The signed-distance tests cover spheres, box-sphere and a few recorded regressions; penetration depth of arbitrary pairs is never compared with an independent value.',
  [NP + 'distance-inl.h', ND + 'convexity_based_algorithm/gjk_libccd-inl.h', ND + 'convexity_based_algorithm/epa-inl.h'],
  [('signed distance via EPA (libccd)', ND + 'convexity_based_algorithm/gjk_libccd-inl.h:GJKSignedDistance'), ('fall-back through collide()', NP + 'distance-inl.h:distance')],
  ['distance() return value', 'DistanceResult::min_distance', 'DistanceResult::nearest_points'],
  'The value must match the certified reference interval (exact polytope depth by axis enumeration, expanding-polytope bounds otherwise); failures of the built-in EPA count only if stable under four small moves.',
  'pairs of bounded shapes; non-trivial: certified overlap',
  S('shapes', 10, 6, asan=0.3), REFNOTE + 'Tolerance 1e-2 of the larger object (4e-2 for the built-in EPA, which stops at 128 faces).')

MESHNOTE = 'Random exploration with a fixed number of cases per run; the oracle enumerates every triangle (pair) with the certified geometry of harness/ref.h. Meshes have at most 40 (quick) or 120 (thorough) triangles and no slivers. '
TRAV = ND + 'traversal'

P('C06', 'Mesh-mesh collision finds every crossing pair of triangles and no other',
  'For any two triangle meshes over the same bounding-volume type, however built, split or refitted, a collision query says they collide exactly when some triangles cross. '
  'Contacts name the two queried objects and touching triangles, stay within the requested number, and an exhaustive query reports every crossing pair once.',
  ['inputs', 'configurations', 'histories'], 'all meshes, all poses, eight bounding-volume types, three splitters, seven ways of building or updating the model, all contact limits',
  'Mesh tests load two fixed environment meshes and compare bounding-volume types with each other, so an error they share, or one that needs a refit or an unusual mesh, stays unseen.',
  [ND + 'collision_func_matrix-inl.h', TRAV + '/collision', SRC + 'geometry/bvh', SRC + 'math/bv'],
  [('mesh collision dispatch', ND + 'collision_func_matrix-inl.h:BVHCollide'), ('leaf test', TRAV + '/collision/mesh_collision_traversal_node-inl.h:leafTesting'), ('traversal', TRAV + '/traversal_recurse-inl.h:collisionRecurse'), ('triangle intersection', ND + 'primitive_shape_algorithm/intersect-inl.h')],
  ['collide() return value', 'CollisionResult contacts: objects, triangle ids, normal, depth, position'],
  'Two random meshes (soup, hull, grid, ball, strip, duplicated triangles) are placed near contact and built in one of seven ways; brute force over all triangle pairs yields the pairs that certainly cross and those that may touch, and verdict, limits, pair set and contact geometry are compared.',
  'pairs of meshes; non-trivial: some triangles cross, or the meshes are closer than their size',
  S('meshes', 15, 6, asan=0.3, fuzz=True), MESHNOTE + 'Two meshes of different bounding-volume types are unsupported by fcl.')

P('C07', 'Mesh-mesh distance is the least distance over all triangle pairs',
  'For any two meshes over a bounding-volume type that supports distance, however built or refitted, the distance query returns the smallest distance between their triangles, within the error allowances of the request and never below it. '
  'The named triangles are at that distance and the nearest points lie on them.',
  ['inputs', 'configurations', 'histories'], 'all meshes, poses, RSS, kIOS, OBBRSS and AABB models, splitters, build histories, error allowances',
  'Distance tests compare traversal variants on one environment; a wrong lower bound of a bounding volume only shows for particular shapes and poses.',
  [ND + 'distance_func_matrix-inl.h', TRAV + '/distance', SRC + 'math/bv/RSS-inl.h', SRC + 'math/bv/kIOS-inl.h', ND + 'primitive_shape_algorithm/triangle_distance-inl.h'],
  [('mesh distance dispatch', ND + 'distance_func_matrix-inl.h:BVHDistance'), ('pruning', TRAV + '/distance/mesh_distance_traversal_node-inl.h:canStop'), ('rectangle distance', SRC + 'math/bv/RSS-inl.h:rectDistance')],
  ['distance() return value', 'DistanceResult::min_distance, b1, b2, nearest_points'],
  'The same mesh generator; the reference is the minimum over all pairs of an independent triangle distance; rel_err and abs_err are drawn and the result must lie between the minimum and the minimum plus the allowance.',
  'pairs of meshes; non-trivial: closer than ten times their size',
  S('meshes', 18, 6, asan=0.3, fuzz=True), MESHNOTE)

P('C08', 'Mesh-shape queries agree with testing every triangle',
  'For any mesh and shape, over every bounding-volume type, both solvers and either order of the arguments, a collision query reports exactly the triangles that overlap the shape, up to the requested number. '
  'A distance query returns the least triangle distance with matching triangle and points.',
  ['inputs', 'configurations', 'histories'], 'all meshes, all shape kinds, poses, eight bounding-volume types (three for distance), both solvers, both argument orders, build histories',
  'Mesh-shape tests replace shapes by meshes at a few positions and only compare verdicts; per-triangle results, rotated convexes and unbounded shapes are not covered.',
  [ND + 'collision_func_matrix-inl.h', ND + 'distance_func_matrix-inl.h', TRAV + '/collision', TRAV + '/distance', SRC + 'geometry/shape/utility-inl.h', ND + 'gjk_solver_libccd-inl.h', ND + 'gjk_solver_indep-inl.h', ND + 'primitive_shape_algorithm/sphere_triangle-inl.h'],
  [('mesh-shape dispatch', ND + 'collision_func_matrix-inl.h:BVHShapeCollider'), ('leaf test', TRAV + '/collision/mesh_shape_collision_traversal_node-inl.h'), ('shape-triangle tests', ND + 'gjk_solver_*-inl.h:shapeTriangleIntersect, shapeTriangleDistance'), ('volume of the shape', SRC + 'geometry/shape/utility-inl.h:computeBV')],
  ['collide() and distance() values', 'contacts and nearest points'],
  'A random mesh and shape near contact; the reference computes certified signed distances of the shape to every triangle; contacts must name overlapping triangles, distances must be the minimum, contact normals must separate for the exact pairs.',
  'mesh-shape pairs; non-trivial: the shape comes closer to some triangle than the size of the larger object',
  S('meshes', 12, 6, asan=0.3, fuzz=True), MESHNOTE + 'Tolerance 1e-3 of the larger object. Distance to meshes over AABB, OBB and k-DOPs is unsupported by fcl.')

BVNOTE = 'Random exploration with a fixed number of cases per run. Containment is judged from the public fields of the volumes by formulas of harness/gen_bv.h, not by fcl. '

P('C11', 'Bounding volumes enclose what they are fitted to, and compare conservatively',
  'For every bounding-volume type, a volume fitted to points, merged with a volume or point, translated or converted to another type contains everything it stands for. '
  'Overlap tests never deny a common point, distances between volumes never exceed the true separation, and size measures agree with the extents.',
  ['inputs', 'configurations'], 'all point sets (degenerate ones included), all poses, AABB, OBB, RSS, OBBRSS, kIOS, KDOP16/18/24 and every supported conversion and posed comparison',
  'Tests of bounding volumes cover a few AABB and OBB cases; a volume that leaves out a point prunes real contacts silently and only for particular shapes of data.',
  [SRC + 'math/bv'], [('fitting', SRC + 'math/bv/utility-inl.h:fit'), ('merging', SRC + 'math/bv/*-inl.h:operator+'), ('overlap and distance', SRC + 'math/bv/{OBB,RSS,kIOS,OBBRSS}-inl.h'), ('conversion', SRC + 'math/bv/utility-inl.h:convertBV')],
  ['public fields, overlap(), contain(), distance(), volume(), size(), width(), height(), depth() of the volumes'],
  'Random clouds of one to twenty points (random, collinear, coplanar, coincident, repeated, flat) are fitted, merged, moved and converted; sampled member points must stay inside, volumes sharing a sampled point must overlap, and distances are compared with sampled separations and between the posed and unposed forms.',
  'volumes and volume pairs; non-trivial: the cloud is not a single point',
  S('volumes', 10, 6, asan=0.5, fuzz=True), BVNOTE + 'Looseness is bounded only coarsely; overlap of disjoint volumes is allowed where the type is conservative.')

P('C12', 'Bounding boxes computed for geometries and objects enclose them',
  'For every shape, mesh and octree, the local box, centre and radius, the bounding volume of every type computed at any pose, the bounding vertices, and the box an object keeps after any history of pose changes enclose the geometry. Boxes built from bounding volumes contain the volume.',
  ['inputs', 'configurations', 'histories'], 'all shapes (unbounded ones included), meshes and octrees, all poses and sequences of pose setters, all bounding-volume types',
  'Tests check a few poses per shape; broad phase and trees silently miss contacts when a box is too small at some other pose.',
  [SRC + 'geometry/shape', SRC + 'narrowphase/collision_object-inl.h', SRC + 'geometry/collision_geometry-inl.h', SRC + 'geometry/bvh'],
  [('volume of a shape', SRC + 'geometry/shape/utility-inl.h:computeBV'), ('local boxes', SRC + 'geometry/shape/*-inl.h:computeLocalAABB'), ('object box', SRC + 'narrowphase/collision_object-inl.h:computeAABB'), ('box of a volume', SRC + 'geometry/shape/utility-inl.h:constructBox')],
  ['aabb_local, aabb_center, aabb_radius, CollisionObject::getAABB, computeBV(), getBoundVertices(), constructBox()'],
  'Random geometries and random sequences of pose setters; points of the geometry obtained from its exact support function must lie inside every computed volume, and pose getters must agree with the model pose.',
  'geometries at poses; non-trivial: every case with a rotated or moved geometry',
  S('bounds', 20, 6, asan=0.5, fuzz=True), BVNOTE + 'Local boxes are also checked for tightness along the axes.')

P('C10', 'Bounding-volume models keep their data and a sound tree through any history',
  'Through any sequence of begin, add, end, replace, update, copy and splitter calls, in any order, a bounding-volume model returns the documented codes, stores exactly the data given and never touches memory outside it. '
  'After every successful build, refit or rebuild each primitive is in exactly one leaf, and each node encloses its primitives, over both frames after an update; expanding a cloud by the variances of its points makes each node enclose the ends of their axes.',
  ['histories', 'inputs', 'configurations'], 'all call sequences of the model interface, valid or not, triangle and point models, eight bounding-volume types, three splitters',
  'Model tests walk through a handful of fixed call sequences; memory errors and stale volumes appear only for particular orders, counts and degenerate data.',
  [SRC + 'geometry/bvh'],
  [('state machine', SRC + 'geometry/bvh/BVH_model-inl.h'), ('tree building', SRC + 'geometry/bvh/BVH_model-inl.h:recursiveBuildTree'), ('refit', SRC + 'geometry/bvh/BVH_model-inl.h:refitTree_topdown, recursiveRefitTree_bottomup'), ('splitters and fitters', SRC + 'geometry/bvh/detail')],
  ['return codes', 'vertices, tri_indices, prev_vertices, build_state', 'getBV(), getNumBVs()'],
  'Model-based testing: random call sequences run against a model of return codes and contents; after each call the contents are compared and, when a tree exists, its partition, counts and enclosure are verified by harness containment formulas.',
  'call histories; non-trivial: at least two successful builds, refits or rebuilds were examined',
  S('bvh', 10, 6, asan=0.5, fuzz=True), BVNOTE + 'Triangle indices stay within the vertices given, as documented. makeParentRelative is decided with C23. Expanded clouds are checked at the ends of well separated axes of uncertainty.', state=[('build_state', 'phase of the build, replace or update protocol', SRC + 'geometry/bvh/BVH_model.h'), ('bvs', 'the tree of bounding volumes', SRC + 'geometry/bvh/BVH_model.h')])

BP = SRC + 'broadphase/'
BPNOTE = 'Model-based exploration of random histories over all eight manager configurations (two hash tables), with a fixed number of cases per run; failures must repeat in 3 of 3 fresh processes and are shrunk. '
BPFILES = [BP + x for x in ('broadphase_bruteforce-inl.h', 'broadphase_SSaP-inl.h', 'broadphase_SaP-inl.h', 'broadphase_interval_tree-inl.h', 'broadphase_dynamic_AABB_tree-inl.h', 'broadphase_dynamic_AABB_tree_array-inl.h', 'broadphase_spatialhash-inl.h')] + [BP + 'detail']

P('C13', 'Broad-phase collision queries report every overlapping pair once',
  'After any history of registering, unregistering, moving with update, and clearing, a collision query of any broad-phase manager (self, with an object, with another manager) calls back every pair whose bounding boxes overlap, no pair twice, and only pairs the query is about. '
  'With the default callback the colliding pairs found are those of testing all pairs. An octree queried cell by cell is presented as its cells not known to be free.',
  ['histories', 'inputs', 'configurations'], 'all histories of registry operations and pose changes, all managers and their parameters, objects of any size (flat and unbounded included)',
  'The tests register a scene once, move everything and compare counts; incremental updates, removal, reuse, unusual parameters and degenerate boxes are not exercised, and a broad phase that drops a pair silently hides a collision.',
  BPFILES, [('sweep and prune', BP + 'broadphase_{SaP,SSaP}-inl.h'), ('interval trees', BP + 'broadphase_interval_tree-inl.h, ' + BP + 'detail/interval_tree-inl.h'), ('dynamic boxes trees', BP + 'detail/hierarchy_tree{,_array}-inl.h'), ('spatial hash', BP + 'broadphase_spatialhash-inl.h'), ('default callbacks', BP + 'default_broadphase_callbacks.h')],
  ['callbacks received by collide()', 'DefaultCollisionData::result'],
  'Random histories run against a list of registered objects; each query must call back every pair with strictly overlapping boxes and no pair twice (pairs that merely touch, and extra pairs, are tolerated; each must belong to the query). A variant crowds 101 to 220 objects along two axes, past the size at which two managers change their algorithm. A further check runs the default callbacks, octree objects included, against testing all pairs with collide().',
  'histories; non-trivial: a query with at least one overlapping and one non-overlapping pair',
  S('broadphase', 10, 6, asan=0.5), BPNOTE + 'setup() is called after structural changes, as documented.',
  state=[('registered objects', 'the set of objects a manager holds', BP + 'broadphase_collision_manager.h'), ('end points, trees, hash cells', 'acceleration structures that follow the boxes of the objects', BP + 'broadphase_*.h')])

P('C14', 'Broad-phase distance queries find the smallest distance',
  'After any history of registering, unregistering, moving with update, and clearing, a distance query of any broad-phase manager (self, with an object, with another manager) presents the callback with pairs that include one of smallest distance, and ends. '
  'With the default callback the result is the smallest distance over all pairs. An octree queried cell by cell is presented as its occupied cells.',
  ['histories', 'inputs', 'configurations'], 'all histories of registry operations and pose changes, all managers and their parameters, objects of any size, any distance consistent with the bounding boxes',
  'The tests compare a few random scenes of boxes and spheres; pruning by the distance found so far is wrong only for particular arrangements and histories.',
  BPFILES, [('pruned distance traversal', BP + 'detail and the distance functions of each manager'), ('default callback', BP + 'default_broadphase_callbacks.h:DefaultDistanceFunction')],
  ['callbacks received by distance()', 'DefaultDistanceData::result'],
  'The callback returns an arbitrary metric that is no smaller than the distance of the boxes (so that pruning is legitimate but the minimum is not at the nearest boxes); the minimum over the callbacks must equal the minimum over all pairs. A variant crowds 101 to 220 objects along two axes, past the size at which two managers change their algorithm. A further check does the same with the default callback and distance().',
  'histories; non-trivial: a query over more than one pair',
  S('broadphase', 10, 6, asan=0.5), BPNOTE + 'Hang guard: 30 s of CPU per batch of cases.')

P('C15', 'Broad-phase managers keep an exact registry and stop when asked',
  'After any history of operations, getObjects(), size() and empty() of every manager describe exactly the objects registered and not unregistered or cleared, and once a callback returns true no further callback is made in that query.',
  ['histories', 'configurations'], 'all histories of registry operations, all managers and their parameters, stopping at any callback',
  'The tests never unregister in the middle of a history nor stop a query early at other than the first callback.',
  BPFILES, [('registry', BP + 'broadphase_*-inl.h:registerObject, unregisterObject, clear'), ('early stop', BP + 'broadphase_*-inl.h:collide_, distance_')],
  ['getObjects(), size(), empty()', 'number of callbacks after one returned true'],
  'Random histories compared with a list model after every step; queries whose callback returns true at a drawn position must make no further call.',
  'histories; non-trivial: at least three steps and a non-empty registry at the end',
  S('broadphase', 15, 6, asan=0.5), BPNOTE)

P('C09', 'Octree queries agree with testing every occupied leaf',
  'For any occupancy octree and thresholds, a collision query against a shape, mesh or second octree, in either order and with either solver, finds exactly the occupied leaves that overlap the other object, up to the requested number. '
  'A distance query returns the least distance over occupied leaves; contacts and results name cells that can be looked up.',
  ['inputs', 'configurations'], 'all occupancy maps with leaves of any size, thresholds, poses, all shape kinds, meshes of eight bounding-volume types, both solvers, both orders',
  'The octree tests compare a generated map with its boxes for a few random poses of fixed environment meshes, and never change the thresholds, the argument order or the leaf sizes.',
  [TRAV + '/octree', SRC + 'geometry/octree', ND + 'collision_func_matrix-inl.h', ND + 'distance_func_matrix-inl.h'],
  [('octree traversal', TRAV + '/octree/octree_solver-inl.h'), ('dispatch', ND + 'collision_func_matrix-inl.h, ' + ND + 'distance_func_matrix-inl.h'), ('cell volumes', SRC + 'geometry/octree/octree-inl.h:computeChildBV')],
  ['collide() and distance() values', 'contacts, cell identifiers, nearest points'],
  'Random small octrees (pruned and unpruned, mixed depths, random log-odds and thresholds) meet random shapes, meshes and octrees near contact; the reference lists the occupied leaves through octomap itself and measures each with the certified geometry of harness/ref.h.',
  'query scenes; non-trivial: the octree has an occupied leaf and the other object is within reach of it',
  S('octree', 10, 6, asan=0.3), 'Random exploration with a fixed number of cases per run. Octrees have at most 40 leaves. The signed distance of interpenetrating octrees and meshes is documented as a workaround and only its sign is judged.')

P('C30', 'The octree wrapper presents exactly the map it was given',
  'For any occupancy map and thresholds, the octree geometry classifies every node as occupied, free or uncertain by its log-odds, lists exactly the occupied leaves as boxes, '
  'gives every child the cell that octomap gives it, encloses the whole map in its bounds, and finds each node again from its identifier and cell.',
  ['inputs'], 'all occupancy maps and thresholds, all nodes of all depths',
  'No test walks the nodes through the public interface or changes the occupancy and free thresholds.',
  [SRC + 'geometry/octree'],
  [('node access', SRC + 'geometry/octree/octree-inl.h:isNodeOccupied, getNodeChild, nodeChildExists'), ('list of boxes', SRC + 'geometry/octree/octree-inl.h:toBoxes'), ('look-up by cell', SRC + 'geometry/octree/octree-inl.h:getNodeByQueryCellId'), ('cells of children', SRC + 'geometry/octree/octree-inl.h:computeChildBV')],
  ['toBoxes(), getRootBV(), getNodeByQueryCellId(), isNodeOccupied/Free/Uncertain', 'aabb_local'],
  'Random octrees are walked through the wrapper and compared with octomap iterators and formulas of the harness.',
  'octrees; non-trivial: at least one leaf',
  S('octree', 10, 6, asan=0.5), 'Random exploration with a fixed number of cases per run; octrees have at most 40 leaves.')

P('C20', 'Volume, centre of mass and inertia agree with integration',
  'For every solid shape, convex polytope and closed mesh, at any size and offset from its origin, the volume, centre of mass and inertia about the origin equal those of the solid, '
  'and the inertia about the centre of mass obeys the parallel-axis theorem.',
  ['inputs'], 'all sizes of all shapes, all convex polytopes and closed meshes wherever they lie',
  'Tests check a capsule, and cubes and tetrahedra centred on their centre of mass.',
  [SRC + 'geometry'],
  [('primitives', SRC + 'geometry/shape/*-inl.h:computeVolume, computeCOM, computeMomentofInertia'), ('polytopes', SRC + 'geometry/shape/convex-inl.h'), ('meshes', SRC + 'geometry/bvh/BVH_model-inl.h:computeVolume'), ('parallel axes', SRC + 'geometry/collision_geometry-inl.h:computeMomentofInertiaRelatedToCOM')],
  ['computeVolume(), computeCOM(), computeMomentofInertia(), computeMomentofInertiaRelatedToCOM()'],
  'The reference integrates cross-sections by Gaussian quadrature for primitives and sums tetrahedra from a vertex, with their own inertia formula, for polytopes and meshes.',
  'solids; every case is non-trivial',
  S('geometry', 50, 6, asan=0.3), 'Random exploration with a fixed number of cases per run. Convex reports the inertia of unit mass (as fcl\'s tests require), everything else that of unit density.')

P('C21', 'Convex polytopes find extreme vertices and reject broken topology',
  'For every valid polytope, of any number of vertices and any division of its faces, the vertex found for any direction is one no other vertex exceeds, and the interior point lies strictly inside. '
  'A mesh with an unused vertex or an edge not shared by two faces is rejected when asked and still queried correctly otherwise. The textual form of every shape gives back its exact parameters.',
  ['inputs'], 'all convex polytopes, flat regions with inner vertices included, all directions, all single defects of topology, all shapes for the textual form',
  'Tests try two polytopes and a few directions; the search along edges depends on the order of vertices, ties and flat regions.',
  [SRC + 'geometry/shape'],
  [('extreme vertex', SRC + 'geometry/shape/convex-inl.h:findExtremeVertex'), ('validation', SRC + 'geometry/shape/convex-inl.h:ValidateTopology'), ('textual form', SRC + 'geometry/shape/*-inl.h:representation')],
  ['findExtremeVertex(), getInteriorPoint(), constructor exceptions, representation()'],
  'Random polytopes of up to 90 vertices (rings, prisms, gridded boxes, subdivided hulls, permuted numbering) with random, face-normal and edge directions against a linear scan; random damage against a count of faces per edge; numbers are read back from the textual form.',
  'polytopes and directions; non-trivial: more than 32 vertices, damaged topology, or any textual form',
  S('geometry', 15, 6, asan=0.3), 'Random exploration with a fixed number of cases per run.')

P('C22', 'Meshes made from shapes are closed, outward and on the shape',
  'For every box, sphere, ellipsoid, cylinder and cone, pose and resolution, the mesh made from it is a closed surface oriented outward with no empty triangle, with the documented number of triangles, vertices on the shape placed by the pose, and no farther inside than the chosen resolution implies. '
  'Several shapes may be added to one model.',
  ['inputs', 'configurations'], 'all sizes, poses, resolutions (by count or by density) and numbers of shapes per model',
  'Tests build the meshes and compare collision verdicts at a few poses; orientation, closedness, seams and part boundaries are not examined.',
  [SRC + 'geometry/geometric_shape_to_BVH_model-inl.h'],
  [('tessellation', SRC + 'geometry/geometric_shape_to_BVH_model-inl.h:generateBVHModel')],
  ['vertices and tri_indices of the model, return codes, build_state'],
  'The mesh is examined edge by edge (each directed edge once, with its reverse), every vertex against the shape, volume and support along random directions against exact values less the sag of the chords.',
  'tessellations; every case is non-trivial',
  S('geometry', 2, 5, asan=0.3), 'Random exploration with a fixed number of cases per run. Densities too low to give three segments are only required to succeed.')

P('C25', 'Search structures keep exactly their contents and answer queries exactly',
  'Through any history, the hierarchy trees (pointer and array) hold each inserted leaf once under boxes that tightly enclose everything below, whatever construction, balancing or refit ran; '
  'the interval tree answers overlap, successor and predecessor queries exactly; the hash tables return every stored object sharing a cell and none removed; Morton codes interleave coordinates and respect order.',
  ['histories', 'inputs', 'configurations'], 'all histories of insertion, removal, update, balancing, construction; all boxes (unbounded and equal ones included); all tree parameters',
  'No test addresses these structures directly except one for the array tree and one for Morton codes; broken links or loose boxes only show after particular histories.',
  [BP + 'detail'],
  [('trees', BP + 'detail/hierarchy_tree-inl.h, ' + BP + 'detail/hierarchy_tree_array-inl.h'), ('interval tree', BP + 'detail/interval_tree-inl.h'), ('hash tables', BP + 'detail/{simple,sparse}_hash_table-inl.h, ' + BP + 'detail/spatial_hash-inl.h'), ('Morton codes', BP + 'detail/morton-inl.h')],
  ['node links and boxes, size(), getMaxHeight(), getMaxDepth()', 'query(), getSuccessor(), getPredecessor()', 'morton_code(), morton_functor'],
  'Model-based testing: random histories run against plain lists, the whole structure is walked and compared after every step; Morton codes against bit-by-bit interleaving.',
  'histories; non-trivial: more than five leaves, or a query with both members and non-members, or codes of three non-zero coordinates',
  S('structures', 25, 6, asan=0.5), 'Random exploration with a fixed number of cases per run. The forms of HierarchyTree::update with a velocity cannot be instantiated for the pointer tree.',
  state=[('tree nodes', 'leaves and the boxes above them', BP + 'detail/hierarchy_tree*.h'), ('red-black tree', 'intervals ordered by lower end', BP + 'detail/interval_tree.h')])

P('C17', 'Motions follow their path and their bounds and swept boxes hold it',
  'Every motion (translation, interpolation about a point, screw, spline) starts and ends at the given poses, follows its documented path in between, and gives the same pose for the same time whatever was asked before; '
  'its motion bound is at least the speed of every point of the triangle or volume along the direction until the end; its Taylor model and the box of a continuous object hold the whole sweep.',
  ['inputs', 'histories', 'configurations'], 'all start and goal poses, spline control points, reference points, times and orders of times, directions, triangles, volumes and shapes',
  'Tests contain no motion but the constant ones used by continuous collision tests at a few poses; a bound too small shows only for particular directions and times, and then as a missed collision.',
  [SRC + 'math/motion', SRC + 'narrowphase/continuous_collision_object-inl.h'],
  [('motions', SRC + 'math/motion/{translation,interp,screw,spline}_motion-inl.h'), ('motion bounds', SRC + 'math/motion/*_motion_bound_visitor-inl.h'), ('swept box', SRC + 'narrowphase/continuous_collision_object-inl.h:computeAABB')],
  ['getCurrentTransform() after integrate()', 'computeMotionBound()', 'getTaylorModel()', 'ContinuousCollisionObject::getAABB()'],
  'Poses against closed forms written independently (exponential of the rotation vector, screw axis, B-spline weights); displacements of points between the current time and 24 later times against the bound; extents of the exact shape and entries of the pose at sampled times against box and model.',
  'motions; every case is non-trivial (the tally per motion type is in the evidence)',
  S('motion', 15, 12, asan=0.3), 'Random exploration with a fixed number of cases per run. The path of turns within 0.04 of a half turn is only required to reach the ends.',
  state=[('current pose', 'the pose for the last integrate() call', SRC + 'math/motion/*.h:tf')])

P('C18', 'Interval and Taylor-model arithmetic encloses every possible result',
  'Each interval operation returns the smallest interval of all results; vectors and matrices of intervals, and Taylor models built by any sequence of operations (sums, products, trigonometric functions, their vectors and matrices), '
  'hold the true value at every time of their interval, in every kind of bound (at a time, loose, tight, part of the interval).',
  ['inputs'], 'all signs and degenerate intervals, expression trees up to depth 3, time intervals at or after 0',
  'No test touches these classes; an enclosure that is slightly too small shows only as a rare missed collision.',
  [SRC + 'math/motion/taylor_model'],
  [('interval arithmetic', SRC + 'math/motion/taylor_model/interval*-inl.h'), ('Taylor models', SRC + 'math/motion/taylor_model/taylor_*-inl.h')],
  ['operators, dot(), cross(), rotationConstrain()', 'getBound(), getTightBound(), remainder()'],
  'Intervals against the extremes over the end points; random members of interval vectors and matrices; random expression trees evaluated at sampled times; tight bounds against the sampled range of their polynomial; remainders of sine and cosine against the Lagrange bound.',
  'expressions; non-trivial: intervals of positive width, compound expressions',
  S('motion', 8, 12, asan=0.3), 'Random exploration with a fixed number of cases per run, up to rounding of 1e-10 of the terms.')

P('C16', 'Continuous collision finds the first contact along the motions',
  'For every pair of convex shapes or meshes and every motion type, continuous collision detection never passes over a moment at which the bodies overlap: conservative advancement and the polynomial solver report a time not after the first contact, '
  'and only one at which the bodies are within the documented step of touching; sampling reports the first sample in contact. The reported time, return value and poses agree, whichever of the interfaces is used and however often the query is repeated.',
  ['inputs', 'configurations'], 'all convex shapes, meshes under all bounding volumes, translation, interpolation, screw and spline motions, both GJK solvers, all sample counts, the four ways of asking',
  'The tests compare a few poses of two fixed meshes with sampling; a contact passed over shows only for particular motions.',
  [SRC + 'narrowphase/continuous_collision-inl.h', TRAV, SRC + 'narrowphase/detail/conservative_advancement_func_matrix-inl.h'],
  [('interfaces and sampling', SRC + 'narrowphase/continuous_collision-inl.h'), ('advancement of meshes and shapes', TRAV + '/distance/*conservative_advancement*-inl.h'), ('polynomial solver', TRAV + '/collision/intersect-inl.h:intersect_VF, intersect_EE')],
  ['return value', 'is_collide, time_of_contact, contact_tf1, contact_tf2'],
  'The path is walked in steps no longer than the exact distance allows (reference distance over a bound of the closing speed) and any certain overlap before the reported time is a violation; at the reported time the reference distance must be within the step the solver is allowed.',
  'pairs of motions; every case is non-trivial (the tally of motions, volumes and outcomes is in the evidence)',
  S('ccd', 12, 8, asan=0.2), 'Random exploration with a fixed number of cases per run. Conservative advancement stops at a step of 1e-4 whatever the request says, so 4 (20 for splines) such steps of closing motion are allowed. Turns within 0.04 of a half turn are left out, as are planes and half-spaces, the empty ray shooting solver and combinations the library does not support (ellipsoids and triangles under conservative advancement, meshes under ellipsoids).',
  state=[('models', 'the models of the user, which a query leaves as they are', SRC + 'geometry/bvh/BVH_model.h')])

P('C05', 'Answers depend neither on the order of arguments nor on the frame',
  'Swapping the two objects of a collision or distance query, or moving both by the same rigid motion, changes nothing but the order in which the objects and their parts are named: '
  'the same parts are in contact and the same distance is found, for every pair of shapes, meshes and octrees and both solvers. Only parts within a thousandth of the size of touching may differ.',
  ['inputs', 'configurations'], 'all pairs of shapes, meshes under all bounding volumes and octrees; all poses; rigid motions up to a hundred sizes away; both solvers',
  'The tests compare the two orders for a few shape pairs at fixed poses; dispatch tables have a separate routine for each ordered pair and the frame enters everywhere.',
  [NP + 'collision-inl.h', NP + 'distance-inl.h', ND + 'collision_func_matrix-inl.h', ND + 'distance_func_matrix-inl.h', TRAV],
  [('dispatch by ordered pair', ND + '{collision,distance}_func_matrix-inl.h'), ('swapped pairs of the solvers', ND + 'gjk_solver_{libccd,indep}-inl.h')],
  ['the pairs (b1, b2) of all contacts', 'distance() return value', 'o1, o2 of the results'],
  'Metamorphic: each query is repeated with the arguments swapped and after moving both; a difference counts only if each of the answers survives moving the second object by 1e-3 of the size in six directions.',
  'pairs of geometries; non-trivial: there is something to measure',
  S('requests', 12, 6, asan=0.3), 'Random exploration with a fixed number of cases per run; half-spaces and planes appear as shapes only in collision.')

P('C19', 'A query does what its request asks, however it is asked',
  'A collision query returns at most the number of contacts asked for, and all of them if they fit, each one that the unlimited query finds; asking for contacts, a cached guess or results that already hold contacts never changes the verdict; '
  'distance flags and error bounds change only what is reported and by no more than the bound; a result already holding a smaller distance keeps it; object and geometry interfaces agree.',
  ['inputs', 'configurations', 'histories'], 'all pairs of shapes, meshes and octrees; contact limits, contact details, guesses, pre-filled results, nearest points, signed distance, relative and absolute error bounds, both solvers, both interfaces',
  'Tests set most request fields to one value each; the interplay of limits, pre-filled results and flags within traversals is not examined.',
  [NP + 'collision_request.h', NP + 'collision_result-inl.h', NP + 'distance_request.h', NP + 'distance_result-inl.h', NP + 'collision-inl.h', NP + 'distance-inl.h', TRAV],
  [('limits', NP + 'collision_request-inl.h:isSatisfied'), ('accumulated results', NP + 'distance_result-inl.h:update'), ('error bounds', TRAV + '/distance/*_distance_traversal_node-inl.h:canStop')],
  ['return values', 'contacts, isCollision, min_distance, nearest_points, o1, o2, b1, b2'],
  'Differential: the same query under different requests and interfaces, and against the unlimited one; the exact minimum bounds what error bounds allow.',
  'pairs of geometries; non-trivial: in contact (limits), with a distance to measure (flags), with an error bound that matters',
  S('requests', 6, 6, asan=0.3), 'Random exploration with a fixed number of cases per run.',
  state=[('result', 'contacts or minimum accumulated over queries', NP + 'collision_result.h, distance_result.h')])

P('C27', 'Cost sources are the overlaps of occupied or uncertain space',
  'With cost enabled, a query reports one cost source for every overlapping pair of parts not known to be free: the box common to the bounding boxes of the two, the product of the densities, and their volume times density as the total; '
  'no others, none when cost is off, largest totals first and kept when only some are asked for. Contacts are recorded only between occupied parts.',
  ['inputs', 'configurations'], 'all pairs of shapes, meshes and octrees; free, uncertain and occupied objects; densities; limits on contacts and sources; exact and approximate cost',
  'One broadphase test counts cost sources of two octrees; no test compares their boxes, densities or totals with the geometry.',
  [NP + 'cost_source-inl.h', NP + 'collision_result-inl.h', TRAV],
  [('sources of shapes', TRAV + '/collision/shape_collision_traversal_node-inl.h'), ('sources of meshes', TRAV + '/collision/mesh_*collision_traversal_node-inl.h'), ('sources of octrees', TRAV + '/octree/octree_solver-inl.h'), ('order and limit', NP + 'cost_source-inl.h:operator<')],
  ['getCostSources()', 'contacts', 'isCollision()'],
  'Every pair of parts is decided by the reference geometry: certain overlaps must have their source, every source must be one of the possible overlaps.',
  'pairs of geometries; non-trivial: cost enabled and at least one certain overlap',
  S('requests', 8, 8, asan=0.3), 'Random exploration with a fixed number of cases per run. Space an octree says nothing about (missing children of cells not known to be free) counts with the occupancy threshold, and between two octrees so does what it meets. Boxes of shapes are those of computeBV (C12).')

P('C29', 'Queries depend on their arguments alone, whatever ran before or runs beside',
  'The answer to a collision, distance or continuous collision query is a function of the geometries, poses and request: the same however many queries were made before on the same geometries, in whatever order, '
  'and the same when several threads query the same geometries at once, which they may do without locks. Queries leave the geometries as they are.',
  ['histories', 'schedules', 'configurations'], 'all sequences of queries over shared shapes, meshes under all bounding volumes and octrees; 2 to 8 threads; both solvers; collision, distance and continuous collision',
  'All tests run one query at a time in one thread, each on its own geometries; leftover state in solvers, models or results goes unnoticed.',
  [NP + 'collision-inl.h', NP + 'distance-inl.h', NP + 'continuous_collision-inl.h', SRC + 'geometry/bvh/BVH_model-inl.h'],
  [('dispatch tables', NP + 'collision-inl.h:getCollisionFunctionLookTable'), ('temporary copies of meshes', SRC + 'geometry/bvh/BVH_model-inl.h'), ('cached guesses', ND + 'gjk_solver_indep.h:cached_guess')],
  ['all fields of the results, bit by bit'],
  'Each query is first answered with newly built copies of the geometries; a random history with repetitions on shared geometries, and 2 to 8 threads running the queries in different orders, must reproduce each answer bit by bit. The threads also run under ThreadSanitizer.',
  'scenes of queries; non-trivial: at least one query finds a contact or distance with details',
  [dict(cfg='rel', harness='threads', mult=3, wall=120, tier='quick', cpu=30), dict(cfg='tsan', harness='threads', mult=0.4, wall=120, tier='quick', cpu=120, only='threads'),
   dict(cfg='rel', harness='threads', mult=8, wall=360, tier='thorough', cpu=30), dict(cfg='tsan', harness='threads', mult=0.5, wall=240, tier='thorough', cpu=240, only='threads'), dict(cfg='asan', harness='threads', mult=0.1, wall=120, tier='thorough', cpu=120, only='history')],
  'Random exploration with a fixed number of cases per run. Schedules are those of the operating system, with ThreadSanitizer on top. The penetration found by libccd depends on addresses (hash tables of pointers), so of overlapping signed distances with that solver only the sign is compared; nearest points of overlapping meshes and octrees are unspecified. Broadphase managers are not shared between threads.',
  state=[('scratch state', 'splitter, fitter, solver guess, dispatch tables', SRC + 'geometry/bvh/BVH_model.h, ' + ND + 'gjk_solver_indep.h')])

P('C23', 'Traversal services agree with testing all pairs of triangles',
  'Below the object interface: a front list kept over a motion reports, pass after pass, the same pairs of triangles as a fresh traversal, each once, and stays a complete, non-overlapping cut through both trees; '
  'self-collision of a mesh reports exactly the crossing pairs of its triangles; distance with a bounded queue finds the minimum; trees made relative to their parents answer as the original ones.',
  ['inputs', 'histories', 'configurations'], 'all mesh pairs under all bounding volumes and splitters; motions by steps, jumps and refits; contact limits and details; queue sizes; both traversal orders',
  'No test looks at a front list after the second pass, at self-collision or at parent-relative trees; what a stale or incomplete front passes over depends on the motion.',
  [TRAV + '/traversal_recurse-inl.h', TRAV + '/collision_node-inl.h', SRC + 'geometry/bvh/BVH_model-inl.h'],
  [('front lists', TRAV + '/traversal_recurse-inl.h:propagateBVHFrontListCollisionRecurse'), ('self-collision', TRAV + '/traversal_recurse-inl.h:selfCollisionRecurse'), ('queue', TRAV + '/traversal_recurse-inl.h:distanceQueueRecurse'), ('parent-relative trees', SRC + 'geometry/bvh/BVH_model-inl.h:makeParentRelativeRecurse, ' + ND + 'traversal/collision_node-inl.h:collide2')],
  ['contacts', 'front list entries', 'min_distance'],
  'Reference: all pairs of triangles decided by exact-style crossing and distance, with touching pairs left open; every leaf pair must lie below exactly one front entry.',
  'meshes and motions; non-trivial: some pair of triangles certainly crosses or (queue) there is a distance to find',
  S('traversal', 5, 6, asan=0.2), 'Random exploration with a fixed number of cases per run. Fronts are reused over refits only (rebuilding renumbers the nodes). Neighbouring triangles of one mesh may be reported by self-collision or not. Fronts of distance queries are never read back by the library and are not judged; collide2() of RSS trees is empty in the library.',
  state=[('front list', 'the cut through the two trees reached by the last pass', SRC + 'geometry/bvh/detail/BVH_front.h')])

P('C24', 'Triangle, segment, sweep and polynomial primitives give the exact answer',
  'The building blocks under the mesh queries hold for all inputs: distance and nearest points of triangles and segments, crossing of triangles with its contact points and depth, first contact of moving vertex-face and edge-edge pairs, '
  'first contact of two meshes with moving vertices, projection of the origin on segments, triangles and tetrahedra, and real roots of quadratic and cubic polynomials.',
  ['inputs', 'configurations'], 'all triangles, segments, motions and coefficients, including parallel, coplanar, touching and shared features, over scales from 1e-2 to 1e2',
  'Tests exercise them only through a few mesh files, never at parallel edges, close roots or several contact times.',
  [ND + 'primitive_shape_algorithm/triangle_distance-inl.h', NP + 'detail/traversal/collision/intersect-inl.h', SRC + 'math/detail/polysolver-inl.h', SRC + 'math/detail/project-inl.h'],
  [('triangle distance', ND + 'primitive_shape_algorithm/triangle_distance-inl.h'), ('crossing and sweeps', NP + 'detail/traversal/collision/intersect-inl.h'), ('projection', SRC + 'math/detail/project-inl.h'), ('roots', SRC + 'math/detail/polysolver-inl.h')],
  ['return values', 'points, parameters, roots, times'],
  'Reference routines written for the checks (enumeration of features), planted meeting times and roots, and residuals evaluated directly: no earlier contact or missed root may exist, none reported may be false.',
  'primitives; non-trivial: apart for distances, crossing for contacts, a contact during the motion for sweeps',
  S('primitives', 16, 6, asan=0.2), 'Random exploration with a fixed number of cases per run. Motions in one plane and feature pairs degenerate at the time of contact are left out; contacts that a nudge of 1e-5 of the size removes may go either way; roots where the slope is below 0.05 within 5e-3. Projection of a tetrahedron beyond its first face is only required to be sound (GJK never asks there).')

P('C26', 'Random samples, decompositions and fits follow their definitions',
  'Random generators and samplers return values within their bounds and with the distribution they promise (uniform in intervals, discs, balls and rotations, Gaussian, half-normal); the same seed repeats them and another seed does not, different generators differ. '
  'Eigen-decompositions, variances, coordinate systems, relative transforms, circumcircles, and fits of extents, covariances and swept rectangles to points or triangles meet their definitions.',
  ['inputs', 'configurations'], 'all bounds, radii, seeds; all symmetric matrices; all points and triangles, subsets by index, one or two frames',
  'One test prints samples without looking at them; the rest is reached only through bounding volumes built from a few meshes.',
  [SRC + 'math/rng-inl.h', 'src/math/detail/seed.cpp', SRC + 'math/sampler', SRC + 'math/geometry-inl.h', SRC + 'math/variance3-inl.h'],
  [('seeds', 'src/math/detail/seed.cpp'), ('generators', SRC + 'math/rng-inl.h'), ('samplers', SRC + 'math/sampler/*-inl.h'), ('fits and decompositions', SRC + 'math/geometry-inl.h'), ('variances', SRC + 'math/variance3-inl.h')],
  ['samples', 'return values and output arguments'],
  'Samples are compared with the exact distribution (Kolmogorov-Smirnov at a level of 1e-11 per statistic), matrices and fits with their definitions computed directly. Each sampling case runs in a process of its own, as seeds are global.',
  'generators, matrices and point sets; non-trivial: a proper interval, a matrix other than zero, more than three points',
  S('maths', 4, 20, asan=0.3), 'Random exploration with a fixed number of cases per run, 4000 samples for each distribution.',
  state=[('seeds', 'the first seed and the sequence of seeds derived from it', 'src/math/detail/seed.cpp')])
P('C28', 'Objects, requests and results keep exactly what they are given',
  'After any history of calls, objects and geometries report the pose, user data (none at first), cost density, occupancy class, types and parts last set, without leaking between objects that share a geometry; '
  'distance results keep the first smallest update with its objects, ids and points; collision results keep all contacts in order and the most costly sources up to the limit; contact, cost and depth orders are strict weak; requests hold their arguments and documented defaults; '
  'the ready-made broadphase callbacks accumulate a sequence of pairs as direct queries do and stop exactly when documented.',
  ['histories', 'inputs'], 'all sequences of setters, updates, additions, replacements and clears; ids of any size; all geometry types; all sequences of pairs given to the callbacks',
  'Tests set an attribute once and read it back; order laws, ids beyond 32 bits, histories and early stops of the callbacks need many sequences.',
  [SRC + 'narrowphase/collision_object-inl.h', SRC + 'narrowphase/continuous_collision_object-inl.h', SRC + 'geometry/collision_geometry-inl.h', SRC + 'narrowphase/collision_result-inl.h', SRC + 'narrowphase/distance_result-inl.h', SRC + 'narrowphase/contact-inl.h', SRC + 'narrowphase/cost_source-inl.h', SRC + 'broadphase/default_broadphase_callbacks.h'],
  [('objects', SRC + 'narrowphase/collision_object-inl.h'), ('results', SRC + 'narrowphase/*_result-inl.h'), ('orders', SRC + 'narrowphase/cost_source-inl.h'), ('callbacks', SRC + 'broadphase/default_broadphase_callbacks.h')],
  ['return values of the getters', 'contents of results after every step', 'stop flags of the callbacks'],
  'Each history is replayed on a plain model (a record of the last values, a list of contacts, a sorted list of sources) and every getter is compared after the steps; orders are tested on triples; callbacks against direct calls of collide and distance on the same pairs.',
  'random histories; non-trivial: more than one step',
  S('objects', 10, 30, asan=0.3), 'Random exploration with a fixed number of cases per run.',
  state=[('attributes', 'pose, user data, cost density and thresholds of objects and geometries', SRC + 'narrowphase/collision_object.h'), ('results', 'contacts, cost sources and the nearest pair collected so far', SRC + 'narrowphase/collision_result.h')])

P('C31', 'Degenerate, tiny, huge and far-away geometry is answered with sound values',
  'Collision, distance and continuous collision queries on legal but degenerate geometry (zero or extreme radii, sides and lengths, triangles without area, coincident points, empty octrees, coincident or far-away poses, scales from 1e-9 to 1e6) end without crash, endless loop or invalid access; '
  'results are consistent and finite: unit or zero normals, finite contact positions, depths and distances, contacts within the limits; a certain overlap is found, certainly separated objects are not reported, and distances respect the certain bounds.',
  ['inputs', 'configurations'], 'all shapes, meshes under every bounding volume and octrees with degenerate dimensions, at all poses, with both solvers and all request options; all continuous solvers and motion types',
  'Divisions by a zero extent, meaningless normals, absolute tolerances and null neighbours appear only for particular degenerate operands, which no test generates.',
  [ND + 'primitive_shape_algorithm', ND + 'convexity_based_algorithm/gjk_libccd-inl.h', NP + 'detail/traversal/collision/intersect-inl.h', NP + 'collision-inl.h', NP + 'distance-inl.h', NP + 'continuous_collision-inl.h'],
  [('closed forms', ND + 'primitive_shape_algorithm/*-inl.h'), ('simplices and polytopes', ND + 'convexity_based_algorithm/gjk_libccd-inl.h'), ('triangles without area', SRC + 'math/geometry-inl.h:isDegenerateTriangle')],
  ['return values', 'contacts, cost sources, min_distance, nearest points, time and poses of contact'],
  'Bounds that are certain whatever the shapes (balls around the objects, points inside them, exact distances of the parts where the reference converges) are compared with the answers, with a margin of 1e-3 of the size plus 2e-5; every value is checked for being well formed; crashes and time-outs are caught by the driver.',
  'pairs of degenerate geometries; non-trivial: the query was answered',
  S('robust', 10, 12, asan=0.5), 'Random exploration with a fixed number of cases per run. Cost sources of unbounded shapes, the shape TriangleP (no entry in the tables) and conservative advancement of ellipsoids are left out. libccd (external) may loop for ever in its portal refinement on degenerate input: such calls are cut off, counted and tolerated when rare, as is the exception with which the expanding polytope gives up on flat shapes.')

P('C32', 'Single-precision queries agree with double-precision ones',
  'Collision, distance and continuous collision queries and the broad-phase managers instantiated for float give, for the same scene in whatever units, the answers of double precision up to single-precision accuracy: the same verdicts and colliding parts, distances and contact times within about a thousandth, '
  'finite contacts with unit or zero normals and the depths of the closed forms, every overlapping pair and the smallest distance from the broad phase.',
  ['inputs', 'configurations'], 'all shapes, meshes under every bounding volume and octrees, all poses, both solvers, continuous solvers and motion types, all managers, scenes in units from 0.01 to 1000',
  'The tests run single precision on a few fixed scenes; tolerances written for double, bit-level tricks and iterations that never converge in single precision show only for some operands.',
  [NP + 'collision-inl.h', NP + 'distance-inl.h', NP + 'continuous_collision-inl.h', ND + 'convexity_based_algorithm', ND + 'primitive_shape_algorithm', NP + 'detail/traversal/collision/intersect-inl.h'],
  [('scalar-dependent tolerances', SRC + 'math/constants.h, ' + ND + 'primitive_shape_algorithm/{plane,halfspace}-inl.h'), ('iterative solvers', ND + 'convexity_based_algorithm/gjk-inl.h'), ('cubic equations', NP + 'detail/traversal/collision/intersect-inl.h')],
  ['return values', 'contacts, min_distance, nearest points, time of contact', 'callbacks of the managers'],
  'Differential check: the same random scene is put to the double and the float instantiation (the latter in other units). A difference counts only if either precision gives its answer at all nearby poses (moves of 1e-3 of the size, for continuous queries also turns of 2e-3); scenes of boxes with integer corners are put to the float managers and compared exactly with all pairs.',
  'pairs of geometries in double and single precision, histories of float managers; non-trivial: there is a contact, something to measure or an overlapping pair',
  [dict(cfg='rel', harness='floats', mult=6, wall=120, tier='quick', cpu=30), dict(cfg='rel', harness='floatccd', mult=6, wall=120, tier='quick', cpu=30),
   dict(cfg='rel', harness='floats', mult=2, wall=200, tier='thorough', cpu=30), dict(cfg='rel', harness='floatccd', mult=2, wall=150, tier='thorough', cpu=30), dict(cfg='asan', harness='floatccd', mult=0.1, wall=120, tier='thorough', cpu=120)],
  'Random exploration with a fixed number of cases per run. Cylinders, cones and boxes within 0.014 of an axis-parallel plane are treated as parallel to it by the single-precision closed forms; their depths are compared with that slack.')
