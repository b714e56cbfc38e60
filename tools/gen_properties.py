import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    assert len(title)<=80,(id,len(title))
    P.append(d)
S='planner/src/'
p('C01','RRT and RRT* only grow their tree along validated motions',
 "Whenever RRT or RRT* attaches a new state to its search tree, the motion leading from the chosen parent's state to that new state was built by the configured connection and accepted by the configured state validator in the same iteration, and nothing about that motion changed after it was accepted. The motion stored with the new node is that same motion, and in RRT* the cost stored with the node is the cost of that same parent plus the length of that same motion. A motion towards a sample is cut to the maximum connection distance when longer.",
 ['inputs','histories'],'for every start, goal, obstacle layout, random sample sequence and iteration',
 'The RRT tests run on an obstacle-free space with one goal; no run ever has a motion rejected, so an unvalidated edge cannot show.',
 [S+'algo/rrt.h',S+'algo/rrt_star.h',S+'utils/tree.h'],
 [('IsPathValid before Extend in the search loop',S+'algo/rrt.h:SearchPath'),('best-parent scan',S+'algo/rrt_star.h:SearchPath')],
 obs=['SearchPath','GetPath'])
p('C02','Every Hybrid A* successor is a validated motion from the expanded pose',
 "Every successor Hybrid A* generates for an expanded pose carries a motion that starts at that pose and was accepted by the state validator, or was cut at exactly the last ratio the validator reported as valid. The pose (and its grid bin) given to the successor is the end pose of that motion as it was finally kept.",
 ['inputs'],'for every expanded pose, steering choice, direction, goal and obstacle layout',
 'The test uses an empty map, where no motion is ever rejected or cut.',
 [S+'algo/hybrid_a_star.cpp',S+'algo/hybrid_a_star.h'],
 [('validate, truncate, recompute the child',S+'algo/hybrid_a_star.cpp:GetConstantSteerChild'),('validate the shot to the goal',S+'algo/hybrid_a_star.cpp:GetReedsSheppChild')],
 obs=['GetGraphSearchPath','GetGraphSearchExploredPathSet'])
p('C03','Query outcome: success means goal reached, failure means no path',
 "A planner query reports success only when, during that same query, its goal test accepted the state the reported path ends in (for bidirectional search: both searches share the meeting state). When a query reports failure for any reason, including an uninitialised planner, asking for the path afterwards yields an empty path, never one left over from an earlier query.",
 ['inputs','histories'],'for every sequence of queries on one planner object, with any goals and any interleaving of successes and failures',
 'Every test runs one successful query per planner object; neither failure nor reuse after failure is exercised.',
 [S+'algo/a_star.h',S+'algo/bidirectional_a_star.h',S+'algo/rrt.h',S+'algo/rrt_star.h',S+'algo/hybrid_a_star.cpp'],
 [('solution node reset and set',S+'algo/a_star.h:InitializeSearch, SearchPath'),('Clear()',S+'algo/rrt.h'),('path member',S+'algo/hybrid_a_star.cpp:SearchPath')],
 obs=['SearchPath','GetPath'])
p('C04','Every query is answered for its own start, goal and obstacle map',
 "Each query uses the start and goal currently set on the planner, and no value computed for an earlier goal or obstacle layout: every heuristic the search consults, however nested in combined or adapted heuristics or in the averaged pair of a bidirectional search, has been given the current goal before its first evaluation in that query. Hybrid A* additionally refreshes its obstacle-distance heuristic, its Voronoi field and its goal-directed shot for the current goal and map before searching.",
 ['histories','configurations'],'for every sequence of goal and obstacle changes between queries and every nesting of heuristics',
 'No test changes the goal or map between two queries on the same object.',
 [S+'algo/a_star.h',S+'algo/bidirectional_a_star.h',S+'algo/hybrid_a_star.cpp',S+'algo/heuristics.cpp',S+'state_validator/gvd.cpp'],
 [('SetGoal forwarding',S+'algo/a_star.h, bidirectional_a_star.h'),('Update calls',S+'algo/hybrid_a_star.cpp:SearchPath')],
 obs=['SearchPath','GetHeuristicValue'])
p('C05','Best-first search accounts for cost and duplicates consistently',
 "In A*, Hybrid A* and bidirectional A*, a generated child is charged its parent's path cost plus exactly the transition cost reported for it, and its priority is that path cost plus the heuristic value of its own state; expanding a state records it as explored. In graph search a child is queued only if its state is neither queued nor explored, or replaces a queued entry of the same state that costs strictly more; costs of a queued entry are never changed in place, and every queued node is owned by the node it was reached from.",
 ['inputs','histories'],'for every graph, heuristic and expansion order',
 'The unit test checks one small grid with one optimal answer; wrong duplicate handling needs particular cost orderings to show.',
 [S+'algo/a_star.h',S+'algo/hybrid_a_star.h',S+'algo/heuristics.cpp'],
 [('Expand / shortcut processing',S+'algo/a_star.h'),('Dijkstra relaxation of the obstacle heuristic',S+'algo/heuristics.cpp:Update')],
 obs=['GetPath','GetOptimalCost','GetExploredStates'])
p('C06','The priority frontier keeps its order and its lookup in agreement',
 "After any sequence of push, pop, remove and clear, the frontier's lookup contains exactly the elements of its ordered store: every operation that adds or deletes an element does so in both, for the same element, or in neither. Pushing an element equal to one already present changes nothing, pop returns and deletes the element top shows, and removing deletes at most the matching element and says whether it did.",
 ['histories'],'for every sequence of operations and every comparator, hash and equality',
 'The test does a handful of pushes and pops with distinct integers.',
 [S+'utils/frontier.h'],[('paired updates of the vector and the set',S+'utils/frontier.h:Push, Remove, Pop, Clear')],
 obs=['Push','Pop','Remove','Find','Size','Top'])
p('C07','Tree links, node lookup and spatial index stay coherent',
 "In every reachable state of the node tree a node's recorded parent is the node that owns it and a node without an owner has no parent, through adding, removing, replacing and reparenting nodes; reparenting below a descendant detaches that descendant first so that no cycle forms. Every state added to a search tree is entered in the node lookup and in the spatial index together, with the same state, extending towards a state already present adds nothing, and clearing empties all of them.",
 ['histories'],'for every sequence of tree operations',
 'Tests check a few fixed shapes; reparenting across the root and repeated extends are sampled once.',
 [S+'utils/node.h',S+'utils/tree.h'],[('link maintenance',S+'utils/node.h:AddChild, RemoveChild, ReplaceChild, Reparent'),('paired registration',S+'utils/tree.h:CreateRootNode, Extend, Clear')],
 obs=['GetParent','GetChildren','GetNearestNode','Size'])
p('C08','Sampled and enforced states respect every state-space bound',
 "For every state space, enforcing bounds maps each component into its own lower/upper bound and leaves an in-bounds component unchanged, and bounds validation accepts a state exactly when every component is inside its own bounds, borders included. Every state returned by uniform or Gaussian sampling, singly or in batches, has every component within its own bounds, and a batch of n holds n such samples.",
 ['inputs'],'for every bound pair, state, mean, deviation and random draw',
 'No test covers the state spaces; random draws cannot be enumerated.',
 [S+'state_space/state_space.h',S+'state_space/state_space_r2.cpp',S+'state_space/state_space_se2.cpp',S+'utils/random.h'],
 [('component-wise clamp and comparison',S+'state_space/*.cpp'),('uniform draw scaling',S+'utils/random.h')],obs=['EnforceBounds','ValidateBounds','SampleUniform','SampleGaussian'])
p('C09','World, local and grid coordinates of a map agree',
 "For any map size, resolution and position, in any order of sizing and moving the map, converting between world, local and grid coordinates is consistent: world and local positions convert back and forth without change, a cell's world position is its local position moved by the map position, and a world position and its local counterpart fall in the same cell. A position maps to the cell whose half-open square contains it, and with bounds checking any position outside the map yields the invalid cell. The local frame is centred on the map.",
 ['inputs','histories'],'for every map geometry, map position history and query point',
 'No test touches the occupancy map conversions.',
 [S+'state_validator/occupancy_map.h',S+'state_validator/occupancy_map.cpp'],
 [('origins kept by sizing and moving',S+'state_validator/occupancy_map.cpp:InitializeSize, occupancy_map.h:SetPosition'),('conversion functions',S+'state_validator/occupancy_map.h')],obs=['GridCellToWorldPosition','WorldPositionToGridCell','WorldPositionToLocalPosition'])
p('C10','Grid and table lookups never leave their tables',
 "Every cell used to index a map-sized grid or lookup table is first known to be inside it (because it was range-checked, generated as an in-range neighbour, or rasterised with clipping), and the invalid cell is never used as an index. Neighbours and rasterised boundary cells are only generated inside the given extents, and a heuristic table is indexed only by indices within each of its dimensions.",
 ['inputs'],'for every position, cell, map size and heuristic resolution',
 'Out-of-range reads usually return garbage silently, and no test queries outside the map.',
 [S+'utils/grid.cpp',S+'state_validator/gvd.cpp',S+'state_validator/state_validator_occupancy_map.cpp',S+'state_validator/obstacle.cpp',S+'algo/heuristics.cpp',S+'algo/hybrid_a_star.cpp',S+'algo/smoother.cpp'],
 [('bounded conversion and inside-map checks','call sites of grid indexing')],obs=['IsStateValid','GetHeuristicValue','GetNearestObstaclePosition'])
p('C11','Distance maps keep distance and nearest cell paired and propagate changes',
 "In the obstacle and Voronoi distance maps the stored distance of a cell always matches the stored nearest cell: zero for the cell itself, the squared grid distance to it when inherited, infinite exactly when none is known; it changes only together with it and only to a strictly smaller value or back to infinite. Every cell whose entry changes is queued for processing with its new distance, a lowering wave only spreads from cells whose nearest cell is still occupied, and a raised cell's dependants are reset or re-queued before it stops being raised.",
 ['histories'],'for every sequence of obstacle insertions, removals and updates',
 'No test covers the distance maps.',
 [S+'state_validator/gvd.cpp',S+'state_validator/gvd.h'],
 [('raise/lower wave',S+'state_validator/gvd.cpp:Update, SetObstacle, UnsetObstacle, SetEdge, UnsetEdge')],obs=['GetDistanceToNearestObstacle','GetNearestObstacleCell','GetPathCost'])
p('C12','Adding and removing obstacles updates every view of the map together',
 "Adding an obstacle registers it and marks every one of its boundary cells as occupied with its identifier and as an obstacle in the distance map; adding it again changes nothing and says so. Removing a registered obstacle unregisters it, frees its identifier and clears the same cells in both views, removing an unknown one changes nothing, and no two registered obstacles share an identifier.",
 ['histories'],'for every sequence of additions and removals of any obstacles',
 'No test adds or removes obstacles.',
 [S+'state_validator/obstacle_list_occupancy_map.cpp',S+'state_validator/obstacle.cpp'],
 [('paired updates',S+'state_validator/obstacle_list_occupancy_map.cpp:AddObstacle, RemoveObstacle')],obs=['AddObstacle','RemoveObstacle','IsOccupied','GetNumObstacles'])
p('C13','The state validator accepts only in-bounds, in-map, clear states and paths',
 "The occupancy validator accepts a state only if its map-relative pose is inside the state-space bounds, its cell is inside the map and the distance to the nearest obstacle is at least the safe radius. It accepts a path only if every pose it sampled, from the first one to the final one, was accepted, advancing at most by the free distance or the minimum interpolation step; on rejection the reported ratio is that of a pose it accepted (or zero), and on acceptance it is one. The free distance is the clearance beyond the safe radius, limited by the distance to the border of the bounds; the validator sizes its map to its state space, and the overload reporting a last valid state reports the path's state at the last valid ratio.",
 ['inputs'],'for every state, path and obstacle layout',
 'Tests use an empty map and never see a rejection.',
 [S+'state_validator/state_validator_occupancy_map.cpp',S+'state_validator/state_validator_free.h'],
 [('state test and sampling loop',S+'state_validator/state_validator_occupancy_map.cpp')],obs=['IsStateValid','IsPathValid'])
p('C14','Paths start and end where they say, and truncation keeps a prefix',
 "For every kind of path, interpolating at ratio zero gives the initial state and at ratio one the final state. Truncating at ratio r makes the final state the old state at r and scales the length by r, keeps the initial state, and afterwards interpolating at q gives the old state at q times r; a Reeds-Shepp path's state at r is reached by driving its motions in order for the fraction r of its length, and a composite path is the concatenation of its pieces, starting where its first piece starts. Directions are those of the motion being driven at the ratio asked, cusps are reported at their place along the whole path, batch interpolation gives the state of each ratio in order, and a connection yields a path from its first argument to its second.",
 ['inputs','histories'],'for every path, every ratio in [0,1] and every sequence of truncations',
 'Truncation is not tested at all, and interpolation is sampled at a few ratios of a few Reeds-Shepp paths.',
 [S+'paths/path_r2.cpp',S+'paths/path_se2.cpp',S+'paths/path_constant_steer.cpp',S+'paths/path_reeds_shepp.cpp',S+'paths/path_composite.h',S+'paths/path_composite.cpp'],
 [('Interpolate / Truncate implementations',S+'paths')],obs=['Interpolate','Truncate','GetFinalState','GetLength','GetCuspPointRatios'])
p('C15','Pose composition is invertible and headings stay wrapped',
 "For all poses a and b, adding to a the pose of b relative to a gives back b, composition rotates the second displacement by the first heading and adds headings, and the result heading is always wrapped. Wrapping a heading changes it only by whole turns and lands within half a turn of zero; equal poses hash equally.",
 ['inputs'],'for all poses and headings',
 'Composition is exercised only indirectly at a few values.',
 [S+'geometry/2dplane.h',S+'geometry/2dplane.cpp',S+'utils/maths.h'],[('operator+, operator-, WrapTheta',S+'geometry/2dplane.h')],obs=['operator+','operator-','WrapTheta'])
p('C16','Reeds-Shepp solver: every word is considered and built as named',
 "The Reeds-Shepp solver evaluates every one of its 48 path words on the correspondingly mirrored goal, and the motions it builds for a word have exactly the steering, direction and order its name spells, with the lengths computed for it and quarter turns where named. Whenever a word is reported feasible, its motions have non-negative lengths and driving them from the start at the given turning radius ends at the goal; a word that the published construction solves is never reported infeasible or longer. The length the solver reports equals the sum of the absolute motion lengths scaled by the turning radius, infeasible words are reported infinitely long, and the returned path belongs to the returned word.",
 ['inputs'],'for every start and goal pose, turning radius and word',
 'The tests try one goal per word and only look at the word chosen; wrong branches (infeasible or near-degenerate goals) are not reached.',
 [S+'geometry/reeds_shepp.cpp',S+'geometry/reeds_shepp.h'],[('word tables',S+'geometry/reeds_shepp.cpp:GetMotionLengths, GetPath, *Path'),('mirrored goals',S+'geometry/reeds_shepp.cpp:GetGoalArray')],obs=['GetShortestPath','GetOptimalPath','GetShortestDistance'])
p('C17','Cost parameters keep their roles from the API to the motion cost',
 "The forward multiplier scales only forward travel, the reverse multiplier only backward travel, and the switching cost is charged once per direction change, for every combination of values, in the Reeds-Shepp cost, in Hybrid A* successors and in the heuristics. Values passed by the user reach each consumer under the same role (turning radius, forward, reverse, switching, resolutions), never swapped or dropped.",
 ['inputs','configurations'],'for every combination of parameter values and every motion',
 'Tests leave all multipliers at their defaults of one and zero, where swapping or dropping them changes nothing.',
 [S+'geometry/reeds_shepp.cpp',S+'paths/path_reeds_shepp.cpp',S+'paths/path_reeds_shepp.h',S+'algo/hybrid_a_star.cpp',S+'algo/heuristics.cpp'],
 [('argument plumbing and ComputeCost',S+'geometry/reeds_shepp.cpp:ComputeCost and callers')],obs=['ComputeCost','GetOptimalPath','GetHeuristicValue'])
p('C18','Every best-candidate search returns the candidate it scored best',
 "Wherever the planner scans candidates for the cheapest one (shortest and cheapest Reeds-Shepp word, RRT* parent, bidirectional meeting point), the retained cost starts at infinity or at a feasible candidate's own cost, is replaced exactly when a candidate is strictly better, and all companion data (word, lengths, path, parent, nodes) are replaced in the same step by those of that same candidate. No candidate is skipped for any other reason than being infeasible.",
 ['inputs'],'for every candidate order and cost pattern',
 'Tests accept any path that reaches the goal, so returning stale companion data for a tie or a later candidate passes.',
 [S+'geometry/reeds_shepp.cpp',S+'algo/rrt_star.h',S+'algo/bidirectional_a_star.h'],[('lock-step updates','argmin loops')],obs=['GetShortestPath','GetOptimalPath','SearchPath'])
p('C19','The smoother never reports or returns an unsafe path as smoothed',
 "The smoother reports a non-negative status only if every pose of the path it then exposes passed the state validator after the last modification of that path, and it never moves the first pose, the last pose nor a pose at a cusp. Hybrid A* returns the smoothed path only under a non-negative status and otherwise the unsmoothed search path.",
 ['inputs'],'for every input path, cusp set, map and parameter choice',
 'The only test runs in an empty map, where the path is always safe.',
 [S+'algo/smoother.cpp',S+'algo/hybrid_a_star.cpp'],[('IsPathSafe gate, index filter',S+'algo/smoother.cpp:Smooth')],obs=['Smooth','GetPath','GetStats'])
p('C20','Iterative planners stop within their configured budgets',
 "Every RRT, RRT* and smoothing iteration, whatever branch it takes, consumes one unit of its configured iteration budget, the budget is never refilled during the query, and the loop ends once it is used up; RRT and RRT* also end once the tree exceeds its configured node limit. Every other search loop consumes its work queue or advances its cursor on every path around it.",
 ['inputs','schedules'],'for every random sample sequence, obstacle layout and parameter value',
 'Tests end by success; the branch that skips an iteration (rejected sample) never runs.',
 [S+'algo/rrt.h',S+'algo/rrt_star.h',S+'algo/smoother.cpp',S+'algo/a_star.h',S+'state_validator/gvd.cpp',S+'state_validator/state_validator_occupancy_map.cpp'],
 [('iteration counters','search loops')],obs=['SearchPath','Smooth'])
p('C21','Assertions, logging and profiling never change behaviour',
 "Building with or without assertions, logging or profiling gives the same planning behaviour: no expression inside an assertion, log or profiling statement modifies program state, and no statement is governed by one.",
 ['configurations'],'for every build configuration and every assertion or log site',
 'Tests run in one configuration (assertions on, logging and profiling off).',
 [S+'core/assert.h',S+'core/log.h',S+'debug/profiler.h','main.cpp'],[('macro arguments','all uses of the assertion, logging and profiling macros')],obs=['PP_ASSERT','PP_INFO','PP_ERROR'])
p('C22','The Python interface exposes each operation under its own name',
 "Every method, attribute and property of the Python module is bound to the C++ member its Python name denotes, and every overridable C++ operation called on a Python subclass reaches the Python method of that operation's name with all its arguments. Constructors forward their arguments in declaration order.",
 ['programs'],'for every bound name and every Python subclass',
 'The Python tests exercise only a handful of the bound names.',
 ['interfaces/python/src/pyplanning.cpp'],[('binding tables and trampolines','interfaces/python/src/pyplanning.cpp')],obs=['import pyplanning'])
p('C23','Owned memory and files are released exactly once on every path',
 "Every array, grid, lookup table, search buffer, profiling session and output file the library allocates or opens is released exactly once on every path that leaves its owner, and never used afterwards. Types that own such memory cannot be copied into a second owner.",
 ['inputs','histories'],'for every control path, early return and object copy',
 'Leaks and double frees on early-return paths or copies do not fail functional tests.',
 [S+'utils/grid.h',S+'utils/tree.h',S+'algo/heuristics.cpp',S+'state_validator/gvd.cpp',S+'debug/profiler.cpp'],[('new/delete, fopen/fclose pairs','owners')],obs=['destructors','Visualize','GetNearestNodes'])
p('C24','Profiler session state is only touched under its lock',
 "The profiler's session and output stream are accessed only while its mutex is held, the mutex is never acquired twice by the same thread, and it is released on every exit.",
 ['schedules'],'for every interleaving of profiled threads',
 'Profiling is compiled out of the test build.',
 [S+'debug/profiler.cpp',S+'debug/profiler.h'],[('scoped lock',S+'debug/profiler.cpp')],obs=['WriteProfile','BeginSession','EndSession'])
p('C25','Constant-steer motion is a consistent motion group',
 "Driving a distance with constant steering and then a further distance with the same steering and direction ends in the same pose as driving the sum at once, driving zero distance changes nothing, and driving the same distance back in the opposite direction returns to the start. A positive steering angle turns left when driving forward, zero steering drives straight along the heading, the heading changes by distance times tan(steering)/wheelbase, and the steering angle computed for a radius drives a circle of that radius.",
 ['inputs'],'for every pose, steering angle, distance, direction, wheelbase and reference point',
 'No test covers the bicycle model.',
 [S+'models/kinematic_bicycle_model.cpp'],[('closed-form arc',S+'models/kinematic_bicycle_model.cpp:ConstantSteer')],obs=['ConstantSteer'])
p('C26','Hybrid A* treats poses as duplicates only within one grid cell',
 "Two poses fall in the same Hybrid A* grid bin only if they are less than one spatial resolution apart in x and in y and less than one angular resolution apart in heading, and no bin is narrower than that except at the ends of the heading range. States are duplicates exactly when their bins agree in all three indices, and duplicates hash equally. A state made for a pose or for a path holds that pose or the path's final pose, is filed in that pose's own bin, and a state made for a path has the direction the path ends in. The goal test accepts a state exactly when its pose and the goal pose agree within tolerance in position and in heading, headings compared modulo a full turn.",
 ['inputs'],'for every pose, resolution and goal',
 'The tests plan one path on an empty map; merging distinct bins only makes the search miss or degrade some paths.',
 [S+'algo/hybrid_a_star.h',S+'algo/hybrid_a_star.cpp'],[('binning',S+'algo/hybrid_a_star.h:DiscretizePose'),('goal test',S+'algo/hybrid_a_star.h:IdenticalPoses')],obs=['SearchPath'])
p('C28','Obstacle outlines are placed by their pose and rasterised without gaps',
 "An obstacle's outline in the world is its shape's outline turned by the obstacle's heading and moved to its position: a rectangle has its four corners at half its sides in ring order, a regular polygon its vertices evenly spaced on its radius, a circle is enclosed by its polygon, and a composite is made of all its parts at the same pose. The boundary cells are those of the closed polygon: every edge, the closing one included, gives a chain of adjacent cells from the cell of one end to the cell of the other, of which only cells outside the map are left out.",
 ['inputs'],'for every shape, pose, map and edge direction',
 'Tests build one obstacle layout and never look at the cells.',
 [S+'state_validator/obstacle.cpp'],[('line rasteriser',S+'state_validator/obstacle.cpp:RasterizeLine'),('outlines',S+'state_validator/obstacle.cpp')],obs=['GetBoundaryGridCellPosition','GetBoundaryWorldPosition'])
p('C27','The Voronoi field gives each cell its own cost, freshly and in bounds',
 "After the Voronoi diagram is updated, the path cost of every cell of the map is alpha/(alpha+dO) * dV/(dO+dV) * (dO-dMax)^2/dMax^2, where dO and dV are that same cell's distances to the nearest obstacle and Voronoi edge as just updated, and zero for cells at least dMax from obstacles or with no Voronoi edge to measure to. Updating refreshes the obstacle distances first, then the Voronoi distances, then the costs. Every position query (nearest obstacle, nearest Voronoi edge, either distance, path cost) answers exactly for positions inside the map, for the nearest-position queries only when such a cell exists, and answers with the value of the cell holding the position.",
 ['inputs','histories'],'for every map, obstacle history, cell and query position',
 'The tests update one diagram and look at no path cost.',
 [S+'state_validator/gvd.cpp',S+'state_validator/gvd.h'],[('field computation',S+'state_validator/gvd.cpp:PathCostMap::Update'),('refresh order',S+'state_validator/gvd.cpp:GVD::Update'),('position queries',S+'state_validator/gvd.cpp')],obs=['GetPathCost','GetDistanceToNearestObstacle','GetNearestObstaclePosition'])
p('C29','Heuristic fields are filled and read back consistently',
 "Each entry of the obstacle-free cost table holds the cost of the path to the goal pose relative to the state whose lookup reads that very entry; every entry is filled, a lookup inside the table reads the entry closest in position and heading (headings around a full turn included), and outside it the answer is the straight-line distance at the smaller travel multiplier. The obstacle cost field is rebuilt from the goal cell at cost zero for every goal: no occupied cell is entered, no diagonal step passes between two occupied cells, every other neighbour that is new or reached at lower cost is entered, at the cost of the cell it is entered from plus one cell (or its diagonal), and the cheapest waiting cell is taken first. A lookup answers, for a cell that was reached, that cell's cost scaled less one cell diagonal but at least the straight-line distance, and the straight-line distance anywhere else.",
 ['inputs','histories'],'for every map, goal, state, resolution and sequence of goals',
 'No test reads a heuristic field around an obstacle or near the edge of the table.',
 [S+'algo/heuristics.cpp',S+'algo/heuristics.h'],[('table fill and lookup',S+'algo/heuristics.cpp:NonHolonomicHeuristic::Build'),('obstacle field',S+'algo/heuristics.cpp:ObstaclesHeuristic::Update'),('lookup',S+'algo/heuristics.cpp:ObstaclesHeuristic::GetHeuristicValue')],obs=['GetHeuristicValue','Build','Update'])
N=[('C30','A* returns a least-cost path',"With a consistent heuristic, a successful A* or bidirectional A* query returns a path whose cost is the minimum over all paths from start to goal.",'numeric optimality over every graph and heuristic is a global inductive argument over runtime costs; only its structural parts (C05, C06, C18) are decided'),
('C31','The frontier pops elements in non-increasing priority',"Pop returns an element no other queued element precedes, for every push order.",'needs the inductive correctness of the binary insertion search over runtime orderings'),
('C32','Distance maps equal the exact Euclidean distance transform',"After an update the stored distance of every cell is the distance to the closest occupied cell.",'exactness of the dynamic brushfire is a numeric property of the whole propagation; C11 decides its local invariants'),
('C33','Reeds-Shepp paths are globally shortest',"No curvature-bounded path with direction changes between start and goal is shorter than the Reeds-Shepp path returned.",'a theorem about all curves (Reeds and Shepp 1990), not a fact of the code; C16 decides that the code implements the construction'),
('C34','Nearest-node queries return the nearest node',"The nearest node returned by the tree minimises the distance to the query state.",'decided inside the external FLANN library'),
('C35','The smoother converges and lowers its objective',"Gradient descent decreases the smoothing objective.",'numeric convergence'),
('C36','Obstacle heuristics never overestimate',"Heuristic values are lower bounds on the true remaining cost.",'numeric bound over all motions and maps')]
for id,t,s,r in N:
    p(id,t,s,['inputs'],'for every input','Only sampled on a few inputs.',[S],[('algorithm',S)])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(d) for d in P)+'\n')
na=[dict(property=i,reason=r) for i,t,s,r in N]
json.dump(na,open('/tmp/na.json','w'))
