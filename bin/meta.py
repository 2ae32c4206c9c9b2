"""The properties, and how each is decided."""
TV = "TLA+ specification model-checked with TLC; TLC-generated behaviours replayed into the library; recorded traces validated by TLC"
WHY = "The existing tests that run here only exercise the mixture-model fitting; nothing builds an environment at all, and a test would sample a few call orders out of all histories."


def P(id, title, statement, over, text, files, mech, level_note, why=WHY, technique=TV, level="model_checking"):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None),
                technique=technique, level=level, level_note=level_note)


ENVNOTE = ("Exhaustive over the stated small universes in the model; conformance of the code by replaying every enumerated transition (up to a cap) "
           "plus random behaviours and validating the full observable state after each call. Trusts TLC, the driver's projection, and stand-ins for the Rock base headers.")
COMPNOTE = ("Exhaustive over a small universe in the model with every transition replayed into the code, plus random behaviours of a larger one; "
            "the result and the full observable state of each call are validated by TLC. Trusts TLC and the driver's projection.")
PROPS = [
 P("C01", "Every item of an environment is found under exactly one unique id",
   "Every item attached to an environment carries an absolute, finished id that no other item of that environment carries, and looking that id up (also by type) returns exactly that item. "
   "An id the environment makes up is never one that is in use or that it handed out before; attaching an item under an id already in use is refused and changes nothing in the environment. "
   "An attached item's id cannot be changed.",
   ["histories", "inputs"], "all sequences of item creation, id and prefix choice, attach, detach, re-attach and moves between environments",
   ["src/core/Environment.cpp", "src/core/EnvironmentItem.hpp", "src/core/Environment.hpp"],
   [("Environment::attachItem", "src/core/Environment.cpp"), ("Environment::getItem/getItems", "src/core/Environment.hpp"), ("EnvironmentItem::setUniqueId", "src/core/Environment.cpp")], ENVNOTE),
 P("C02", "Frame nodes always form a forest with consistent parent and child views",
   "Whatever sequence of adding, re-parenting and removing children and of attaching and detaching is made, every frame node has at most one parent, appears exactly once among that parent's children and nowhere else, and the reported root is the top of its chain. "
   "Adding a child that has another parent moves it; removing a relation that does not exist changes nothing; linking takes unattached nodes into the environment.",
   ["histories"], "all sequences of public calls on up to five frame nodes and two environments (cycles are the caller's responsibility)",
   ["src/core/Environment.cpp", "src/core/FrameNode.cpp"],
   [("Environment::addChild/removeChild/getParent/getChildren", "src/core/Environment.cpp"), ("FrameNode accessors", "src/core/FrameNode.cpp")], ENVNOTE),
 P("C03", "Layer relations and map placement are consistent from both ends",
   "A layer relation that was added and not removed is listed exactly once from the parent and exactly once from the child, however often it was added; a layer can have several parents, and removing one leaves the others. "
   "A map is placed in at most one frame node; placing it elsewhere moves it, and frame and map always agree about the placement.",
   ["histories"], "all sequences of public calls on layers, maps and frame nodes",
   ["src/core/Environment.cpp", "src/core/Layer.cpp"],
   [("Environment::addChild(Layer)/removeChild(Layer)", "src/core/Environment.cpp"), ("Environment::setFrameNode/detachFrameNode/getMaps", "src/core/Environment.cpp"), ("Environment::attachItem(map, node)", "src/core/Environment.cpp")], ENVNOTE),
 P("C04", "Detached, moved and destroyed items leave no dangling links and live as owned",
   "An item is alive exactly as long as an environment contains it or the user holds a reference. "
   "Detaching removes every relation that mentions the item and no other relation; deep detaching of a frame node takes exactly the sub-tree with its maps along; moving an item to another environment is detach plus attach and keeps the object. "
   "Destroying an environment detaches everything in it, in whatever order and shape it was built.",
   ["histories"], "all sequences of attach, detach, deep detach, move, hold, release and environment destruction",
   ["src/core/Environment.cpp", "src/core/EnvironmentItem.hpp"],
   [("Environment::detachItem", "src/core/Environment.cpp"), ("Environment::~Environment", "src/core/Environment.cpp"), ("intrusive reference count", "src/core/EnvironmentItem.hpp")],
   ENVNOTE + " The driver runs under the address sanitizer, so any use of a destroyed item ends the trace."),
 P("C05", "A registered handler can reconstruct the environment from the events it gets",
   "Folding the events a handler received since it was registered yields, after every call, exactly the items, frame tree, layer relations, map placements and root of the environment; on registration it is told everything that exists and on removal everything is taken back. "
   "Events arrive in an order that always applies: nothing is linked before it is announced, nothing is removed while still linked, nothing is announced or removed twice.",
   ["histories", "schedules"], "all histories of the environment, with handlers registered and removed at any point",
   ["src/core/Environment.cpp", "src/core/EventHandler.cpp", "src/core/EventSource.cpp"],
   [("Environment::addEventHandler/removeEventHandler", "src/core/Environment.cpp"), ("Environment::handle", "src/core/Environment.cpp"), ("EventDispatcher::dispatch", "src/core/EventHandler.cpp")], ENVNOTE),
 P("C06", "Queued events, merged in the queue, still reproduce the source environment",
   "Whenever an event queue that follows an environment is flushed into another environment, that environment has the same items (ids, classes, content, labels), frame tree, layer relations and map placements as the source, no matter how many changes were queued and how they were merged. "
   "Later changes to the source's items do not leak into what was delivered.",
   ["histories", "schedules"], "all histories of the source and all placements of flushes (an id is reused only for an item of the same class between two flushes)",
   ["src/core/Event.cpp", "src/core/EventHandler.cpp"],
   [("Event::merge", "src/core/Event.cpp"), ("EventQueue::handle/flush", "src/core/EventHandler.cpp"), ("Event::ref/apply", "src/core/Event.cpp")],
   ENVNOTE + " The merge rules are additionally model-checked in EventQueue.tla: replaying the queue equals the source in every reachable state."),
 P("C07", "Binary synchronisation keeps a remote environment equal to its source",
   "Applying the serialized events of an environment - pulled, pushed immediately, queued, or through context updates - leaves the receiving environment with the same items (ids, classes, complete content, labels, flags), frame tree, layer relations and map placements as the source. "
   "A full pull reproduces the environment in an empty one and is harmless in one that is up to date; the receiver's own events let a second-level replica follow too.",
   ["histories", "schedules"], "all histories of the source, all ways and moments of synchronising, all item contents",
   ["src/core/Serialization.cpp", "src/core/Environment.cpp", "src/core/Event.cpp"],
   [("BinarySerialization", "src/core/Serialization.cpp"), ("SynchronizationEventHandler", "src/core/Serialization.cpp"), ("Environment::pullEvents/applyEvents", "src/core/Environment.cpp")], ENVNOTE),
 P("C08", "A stored scene reads back as the same scene",
   "Writing an environment to a directory and reading it back yields the same items with the same ids, classes, labels, flags and complete content, the same frame tree, layer relations, map placements and operator inputs and outputs, and the same root. "
   "The environment read back is fully usable: ids it makes up afterwards do not collide with stored ones.",
   ["histories", "inputs"], "all environments reachable by public calls, all labels and contents, followed by further use",
   ["src/core/Serialization.cpp", "src/core/Environment.cpp", "src/core/Layer.cpp"],
   [("FileSerialization::serialize/unserialize", "src/core/Serialization.cpp"), ("EnvironmentItem::serialize", "src/core/Environment.cpp"), ("Layer::getMapFileName", "src/core/Layer.cpp")], ENVNOTE),
 P("C12", "Operators know exactly their inputs and outputs, and run when asked",
   "Inputs and outputs of an operator are exactly the layers added and not removed, each once, within the operator's limits, which are enforced; replacing them replaces all; a layer's generator and the layers derived from a layer follow from these relations. "
   "Updating a layer runs its generator exactly when it is marked dirty and clears the mark; updating all operators runs each operator of the environment exactly once.",
   ["histories"], "all sequences of public calls on operators and layers",
   ["src/core/Environment.cpp", "src/core/Operator.cpp", "src/core/Layer.cpp"],
   [("Environment::addInput/addOutput/removeInput(s)/removeOutput(s)/getGenerator", "src/core/Environment.cpp"), ("Operator::setInput/addInput", "src/core/Operator.cpp"), ("Layer::updateFromOperator/detachFromOperator", "src/core/Layer.cpp")], ENVNOTE),
 P("C13", "Every registered handler gets each event its filter passes, once and in order",
   "Every handler registered with an environment, with the same filter, gets the same events in the same order; a filter removes exactly the events it rejects; handlers that are not registered get nothing, and registering or removing one handler is not noticed by the others. "
   "Each modification of an attached item is announced exactly once to each handler; modifications of unattached items are not announced.",
   ["histories", "schedules"], "all histories, with up to four handlers of different kinds and filters coming and going",
   ["src/core/EventSource.cpp", "src/core/EventHandler.cpp", "src/core/Environment.cpp"],
   [("EventSource", "src/core/EventSource.cpp"), ("EventHandler::receive/setFilter", "src/core/EventHandler.cpp")], ENVNOTE),

 P("T01", "A list grid holds exactly what was put into its cells, in order",
   "Every cell of a list grid lists exactly the elements inserted and not removed, in insertion order from head and tail, whatever inserts, erasures, moves of the whole grid, clears, resizes, assignments and copies came before. "
   "Moving shifts cells together with their lists and drops what leaves the grid; copies are independent of their source; erasing returns the element that followed.",
   ["histories"], "all sequences of public calls on two list grids of any size",
   ["src/tools/ListGrid.hpp"], [("ListGrid insert/erase/move/copy", "src/tools/ListGrid.hpp")], COMPNOTE),
 P("T02", "The box distance table never underestimates nor greatly exceeds distances",
   "A looked-up distance to the box is at most a sampling step (a tenth of a cell, diagonally) below the true distance and at most a cell diagonal above it, for every point of the requested area, for the parameters given last, whatever was computed before. "
   "Points far outside, and any lookup before the table is computed, are refused with an exception.",
   ["inputs", "histories"], "all scales, box sizes, margins, query points and sequences of recomputation",
   ["src/tools/BoxLookUpTable.cpp"], [("BoxLookUpTable::recompute/getDistanceToBox", "src/tools/BoxLookUpTable.cpp")], COMPNOTE),
 P("T03", "The radial table gives distance and direction of every offset in its radius",
   "For every cell offset within the radius, the looked-up distance and angle are the polar coordinates of that offset times the cell size, for the cell size and radius given last, whatever was computed before.",
   ["inputs", "histories"], "all cell sizes, radii, offsets and sequences of recomputation",
   ["src/tools/RadialLookUpTable.cpp"], [("RadialLookUpTable", "src/tools/RadialLookUpTable.cpp")], COMPNOTE),
 P("T04", "Clustering ends in a stable nearest-mean partition with exact statistics",
   "K-means always terminates; its clusters are the exact weighted means and covariances of a partition of the samples in which each sample is in the cluster with the nearest mean, with at most the requested number of clusters and none without samples. "
   "The result depends on the given samples and weights only, not on earlier uses of the object.",
   ["inputs", "histories"], "all sample sets, weights and class counts, and repeated use of one object",
   ["src/tools/ExpectationMaximization.hpp", "src/tools/GaussianMixture.hpp"], [("KMeans::run/getClusters", "src/tools/ExpectationMaximization.hpp"), ("Gaussian::Stats", "src/tools/GaussianMixture.hpp")], COMPNOTE),
 P("T05", "Mixture densities are correct and fitting steps conserve the samples' moments",
   "A Gaussian evaluates to the normal density of its mean and covariance, a mixture to the weighted sum of its components, and samples drawn follow it. "
   "A fitting step gives each component the weight, mean and covariance of the samples in proportion to its responsibility for them, so weights add up to one and the mixture has the samples' mean and second moment, removes only components that explain nothing, and never lowers the likelihood; a run is the iteration of steps until the likelihood settles or the limit is reached.",
   ["inputs", "histories"], "all sample sets, weights and well-conditioned mixtures, and sequences of steps",
   ["src/tools/GaussianMixture.hpp", "src/tools/ExpectationMaximization.hpp"], [("Gaussian::eval, GaussianMixture", "src/tools/GaussianMixture.hpp"), ("ExpectationMaximization::step/run", "src/tools/ExpectationMaximization.hpp")],
   COMPNOTE + " Real numbers are compared in fixed point with tolerances stated in GmmC.tla."),
 P("C09", "Relative transforms follow the frame tree and are exact in both directions",
   "The transform between two frames is the composition along the tree whatever the order in which the tree was built and rearranged; both directions are inverse, and frames without a common root are refused. "
   "Points are taken between maps and frames, and extents to other frames, by exactly this transform; cloning a map into another environment reproduces its chain of frames. "
   "Uncertainties are propagated to first order: composing, inverting and undoing a composition agree with each other.",
   ["inputs", "histories"], "all frame trees with up to five nodes, axis-aligned rotations, integer translations and diagonal covariances (general angles need real arithmetic and are out of scope)",
   ["src/core/Environment.cpp", "src/core/Transform.cpp", "src/Core.hpp"],
   [("Environment::relativeTransform(WithUncertainty)", "src/core/Environment.cpp"), ("TransformWithUncertainty", "src/core/Transform.cpp"), ("Map::toMap/fromMap/getExtentsTransformed", "src/Core.hpp")], COMPNOTE),
 P("C11", "Layer metadata is a typed store that lives and is copied with its layer",
   "A layer returns under each key exactly the value stored last, by reference, until it is removed; asking for a missing key creates a default value, or is refused on a constant layer; asking with the wrong type is refused and changes nothing. "
   "Copying or assigning a layer gives it its own copy of all metadata of the source and nothing else.",
   ["histories", "inputs"], "all sequences of storing, reading, keeping references, removing, clearing, copying and assigning with values of three types on three layers",
   ["src/core/Layer.cpp", "src/core/Layer.hpp", "src/core/Holder.hpp"],
   [("Layer::getData/removeData/operator=", "src/core/Layer.cpp"), ("HolderBase::get/clone", "src/core/Holder.hpp")], COMPNOTE),
 P("C14", "Stored items are created by the class registered for their name",
   "The factory creates an object by the maker registered last under exactly the requested name, or else under the name without its namespaces; every other name is refused with an exception, and no lookup changes the registry.",
   ["histories", "inputs"], "all sequences of registrations and lookups over twelve names, with and without namespaces and close to each other",
   ["src/core/SerializationFactory.cpp"], [("SerializationFactory::createObject/addClass", "src/core/SerializationFactory.cpp")], COMPNOTE),
 P("T06", "Fusing two estimates gives the inverse-variance weighted average",
   "The fused mean is the average weighted by the inverse variances, the fused variance the inverse of the sum of inverse variances, at every magnitude and in either order; two certain estimates are averaged and stay certain. Fusing n equal measurements divides the variance by n.",
   ["inputs", "histories"], "all pairs of estimates over a wide range of magnitudes, in single and double precision",
   ["src/tools/Numeric.hpp"], [("kalman_update, sq", "src/tools/Numeric.hpp")], COMPNOTE),
 P("M01", "A grid's cells, world points and borders agree with each other",
   "The cell of a point is the one whose area, in the grid's own frame with its offset, scale and size, contains the point, whether the point lies inside, outside or on a border, and the point of a cell is that cell's centre; points outside are reported as outside and never mapped to a cell. "
   "Extents are exactly the grid's area. Two grids are reported as aligned, cell by cell or whole, exactly when their cells coincide after the transform between their frames.",
   ["inputs", "histories"], "all sizes, scales, offsets, frame poses (right angles) and points on a fixed-point raster far beyond the grid",
   ["src/maps/GridBase.cpp", "src/maps/GridBase.hpp"], [("GridBase::toGrid/fromGrid/getExtents", "src/maps/GridBase.cpp"), ("GridBase::isAlignedWith/isCellAlignedWith", "src/maps/GridBase.cpp")], COMPNOTE),
 P("M02", "A multi-level surface grid keeps exactly the patches put into its cells",
   "Each cell holds exactly the patches inserted or fused there and not removed, the patch count, the occupied-cell index and the extents cover all of them, and a lookup by position and height returns a patch within the given number of deviations in height exactly when there is one. "
   "Moving, resizing, clearing, copying and assigning a grid keep these in step. Matching one grid into another takes every patch through the transform between their frames.",
   ["inputs", "histories"], "all sequences of updates, erasures, moves, copies, merges and matches on two grids",
   ["src/maps/MLSGrid.cpp", "src/maps/MLSGrid.hpp"], [("MLSGrid::updateCell/get/move/match/merge", "src/maps/MLSGrid.cpp")], COMPNOTE),
 P("M03", "Fusing a measurement into a surface patch yields the right patch or none",
   "Merging two patches is done exactly when they overlap within the given gap, size and deviation, and is refused otherwise, at most cutting off the part a newer patch of the other kind covers. "
   "The fused patch has the mean, deviation, height, horizontal or vertical kind and fitted plane that the update model (weighted average, sum or slope) prescribes for both measurements, and heights, distances and extents follow from these values.",
   ["inputs", "histories"], "all sequences of up to measurements of all kinds among three patches, under all three update models",
   ["src/maps/MLSPatch.hpp", "src/tools/PlaneFitting.hpp"], [("SurfacePatch::merge/mergePatchKalman/mergePatchSum/mergeMLSSlope", "src/maps/MLSPatch.hpp")], COMPNOTE),
 P("M04", "A line through grid cells is connected, straight and reaches its end",
   "The cells visited between two cells start at one, end at the other, never jump, never lie further than half a cell from the straight line, and number one more than the larger of the two distances. However often and in whatever portions one iterator is used, it delivers this line.",
   ["inputs"], "all pairs of cells in a raster that includes all octants and degenerate lines, and sequences of use of one iterator",
   ["src/tools/BresenhamLine.cpp"], [("Bresenham::init/getNextPoint", "src/tools/BresenhamLine.cpp")], COMPNOTE),
 P("M05", "Visiting a rectangle visits each cell it touches exactly once",
   "Iterating over the cells of an arbitrarily placed and turned rectangle, or over those of an outer and an inner one, calls the function exactly once for each cell of the grid the rectangle clearly covers and for none it clearly misses, and marks a cell as inner exactly when the inner rectangle covers it. "
   "A rectangle that leaves the grid is refused and nothing is visited.",
   ["inputs"], "all rectangles, turns, positions and grids on a fixed-point raster; cells within a fifth of a cell of the border may go either way",
   ["src/maps/GridBase.cpp"], [("GridBase::forEachInRectangle/forEachInRectangles", "src/maps/GridBase.cpp")], COMPNOTE),
 P("M06", "The bands of a grid hold, copy and store exactly the values written",
   "A cell of a band reads back the value written last, for every value type and border value, until the band is removed; bands and no-data values are independent of each other and minimum, maximum and no-data tests follow from the cells. "
   "A copy has its own bands; writing to memory or to files and reading back gives the same bands.",
   ["inputs", "histories"], "all sequences of band creation, writing, copying, streaming and file export over several cell types",
   ["src/maps/Grid.hpp", "src/maps/Grids.hpp", "src/maps/Grids.cpp"], [("Grid<T>::getGridData/setNoData/getMinMaxValues", "src/maps/Grid.hpp"), ("Grid<T>::serialize/readGridData/writeGridData", "src/maps/Grid.hpp")], COMPNOTE),
 P("M07", "A traversability grid reports classes, certainty and statistics of its cells",
   "Each cell reports the class and probability stored last, and the drivability registered for that class; the statistic of a rectangle counts every cell it covers exactly once, with the distances to the inner rectangle, and the worst class and its probability are those of the covered cells. "
   "Copies have their own cells and classes, and a stored grid reads back the same.",
   ["inputs", "histories"], "all sequences of class registration, cell writes, queries, copies and serialization with all 256 classes",
   ["src/maps/TraversabilityGrid.cpp", "src/maps/TraversabilityGrid.hpp"], [("TraversabilityGrid::getStatisticInRectangle/getWorstTraversabilityClassInRectangle", "src/maps/TraversabilityGrid.cpp"), ("TraversabilityGrid::setTraversability/getTraversability", "src/maps/TraversabilityGrid.cpp")], COMPNOTE),
P("M08", "Obstacles, slopes and grown classes follow the thresholds of the operator",
   "A cell becomes an obstacle exactly when its step or slope exceeds the limit, it lies between two obstacles too close to pass, or it is within the obstacle clearance of one; every other cell gets the class its slope rounds to, or unknown where the input has no value. "
   "Classes and objects grow exactly as far as the given radius, the least drivable or highest ranked one winning. "
   "Every run replaces the result of the previous one, and a stored operator has its parameters when read back.",
   ["inputs", "histories"], "all slopes, steps, parameters, grids and class tables on a fixed-point raster, run repeatedly on the same grids",
   ["src/operators/SimpleTraversability.cpp", "src/operators/TraversabilityGrowClasses.cpp", "src/operators/ObjectGrowing.cpp", "src/operators/ClassGridProjection.hpp"], [("SimpleTraversability::updateAll/closeNarrowPassages/growObstacles", "src/operators/SimpleTraversability.cpp"), ("TraversabilityGrowClasses::updateAll", "src/operators/TraversabilityGrowClasses.cpp")], COMPNOTE),
 P("M09", "A map of several surface grids finds, places and adds to the right grid",
   "A map knows exactly the grids attached to it in their order, keeps the active one among them, and a new active grid is created next to the last one exactly when the given frame is too far away, aligned with the cells of the old one exactly when asked to. "
   "A lookup of a patch reports exactly what the grids hold at this place under the current frames, whatever was asked, moved or changed before. "
   "Extents cover all grids, and copies, shallow or deep, hold the grids or copies of them.",
   ["inputs", "histories"], "all sequences of attaching, moving, selecting, filling and copying over maps of several grids in moving frames",
   ["src/maps/MLSMap.cpp", "src/maps/MLSMap.hpp"], [("MLSMap::selectActiveGrid/getPatch/addGrid", "src/maps/MLSMap.cpp")], COMPNOTE),
 P("M10", "Converting between surface grids, elevation grids and point clouds is faithful",
   "A conversion between elevation grids, multi-level surface grids and point clouds takes each cell, patch or point through the transform between the frames and puts its height, deviation and colour into the cell it falls into, and only there. "
   "Merging grids combines exactly the patches of all inputs; a projected scan ends up in exactly the cells its points fall into. "
   "Running an operator again gives the same result, and an output whose raster does not fit is refused.",
   ["inputs", "histories"], "all contents, rasters, frame poses (right angles) and sequences of runs on a fixed-point raster",
   ["src/operators/GridFloatToMLS.cpp", "src/operators/MLSToGrid.cpp", "src/operators/MergeMLS.cpp", "src/operators/MLSProjection.cpp", "src/operators/MLSToPointCloud.cpp"],
   [("GridFloatToMLS::updateAll", "src/operators/GridFloatToMLS.cpp"), ("MergeMLS::updateAll", "src/operators/MergeMLS.cpp"), ("MLSProjection::updateAll", "src/operators/MLSProjection.cpp")], COMPNOTE),
 P("M11", "Point clouds keep each vertex together with its data",
   "Copying, merging, cutting, clearing, cloning, assigning, writing and reading a point cloud or mesh yields exactly the vertices the operation selects, taken exactly once through the transform between the frames, and each vertex keeps its own normal (rotated along), colour, attribute and variance. "
   "Cutting keeps a vertex exactly if it is in every including box and in no excluding one; a merge that cannot be complete is refused; a distance image yields one point per valid pixel on its ray with its variance and colour. Extents enclose exactly the vertices; mesh normals are those of adjacent faces.",
   ["inputs", "histories"], "all clouds, data sets, frame poses (right angles), boxes, images and sequences of operations on a fixed-point raster",
   ["src/maps/Pointcloud.hpp", "src/maps/Pointcloud.cpp", "src/maps/TriMesh.cpp", "src/operators/MergePointcloud.cpp", "src/operators/CutPointcloud.cpp", "src/operators/DistanceGridToPointcloud.cpp"],
   [("Pointcloud::copyFrom", "src/maps/Pointcloud.cpp"), ("MergePointcloud::updateAll", "src/operators/MergePointcloud.cpp"), ("CutPointcloud::updateAll", "src/operators/CutPointcloud.cpp"),
    ("DistanceGridToPointcloud::updateAll", "src/operators/DistanceGridToPointcloud.cpp"), ("TriMesh::calcVertexNormals", "src/maps/TriMesh.cpp")], COMPNOTE),
 P("M12", "Scans are restored as stored; their meshes connect the measured points",
   "A scan that is written and read, imported, stored with its environment or cloned has the same angles, offset, forward axis, lines, distances and reflectivities. "
   "Meshing a scan yields exactly one vertex per distance that is in range and not at a steep step between neighbouring distances (an angle of more than 85 degrees), at the position its angles, the tilt of its line and the centre offset give, with its variance, its mark as an edge of the scan and, where wanted, its reflectivity as colour; "
   "each four neighbouring readings span at most two triangles, over exactly those corners that are vertices and no longer edge than the limit apart, all facing the same way; meshing again changes nothing.",
   ["inputs", "histories"], "all scans, lines, distances, settings and sequences of operations on whole degrees and millimetres (centre offset only with the y axis forward, distances clear of the limits)",
   ["src/maps/LaserScan.cpp", "src/operators/ScanMeshing.cpp", "src/maps/TriMesh.cpp"],
   [("LaserScan::parseScan", "src/maps/LaserScan.cpp"), ("LaserScan::writeScan", "src/maps/LaserScan.cpp"), ("LaserScan::addScanLine", "src/maps/LaserScan.cpp"), ("ScanMeshing::updateAll", "src/operators/ScanMeshing.cpp")], COMPNOTE),
]
NOT_APPLICABLE = []
