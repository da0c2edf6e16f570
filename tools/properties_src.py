# Executed by gen.py. prop(id, title, statement, over, quantifier, why, files, mechanism, observe, technique, note)
SAN = ' Trusts the harness\'s own oracle; runs under ASan, UBSan and libstdc++ assertions.'

prop('P01', 'Looking up a position finds the nearest point of the road',
     'For every road and every point in space, looking up the road position of the point yields a position on a lane of the road whose distance to the point is the minimum over all lanes, with the reported distance, nearest point and lane coordinates consistent with one another within the linear tolerance. Among equally near lanes one whose lane bounds hold the point is preferred, then the one with the smallest lateral offset. The answer is the same with the exhaustive search and with the spatial-index search, and a position that lies on the road is found again where it came from.',
     ['inputs', 'configurations'], 'every road geometry (lane layouts, frame translation, tolerance), every query point, every hint, both search strategies and index sampling steps',
     'Tests query a handful of points on two or three fixed mock roads with canned lane answers; nearest-of-all is a statement about every point of every road, and index pruning errors only show for particular lane/point placements.',
     ['src/maliput/geometry_base/brute_force_strategy.cc', 'src/maliput/geometry_base/kd_tree_strategy.cc', 'src/maliput/geometry_base/strategy_base.cc', 'src/maliput/geometry_base/road_geometry.cc'],
     [('exhaustive scan and tie break', 'BruteForceStrategy::DoToRoadPosition, StrategyBase'), ('spatial index', 'KDTreeStrategy')],
     ['RoadGeometry::ToRoadPosition'],
     'property-based testing: random analytic roads and points against an exhaustive closed-form scan, both strategies',
     'Sampled roads of up to a few segments with straight, tilted and curved lanes; the oracle recomputes nearest points in closed form.' + SAN)
prop('P02', 'Finding road positions reports exactly the lanes within the radius',
     'For every road, point and radius, the search for road positions reports each lane whose region comes within the radius exactly once, and no other lane. Each reported position is the point of that lane nearest to the query, with a matching distance; with an infinite radius every lane is reported. A negative radius is refused, and both search strategies agree.',
     ['inputs', 'configurations'], 'every road geometry, query point and radius in [0, infinity], both strategies',
     'Tests use mock lanes with hand-picked distances and two or three radii; completeness at every radius and for lanes above, below or beside the query is never enumerated.',
     ['src/maliput/geometry_base/brute_force_find_road_positions_strategy.cc', 'src/maliput/geometry_base/kd_tree_strategy.cc', 'src/maliput/geometry_base/filter_positions.cc', 'src/maliput/api/road_geometry.cc'],
     [('exhaustive filter', 'BruteForceFindRoadPositionsStrategy'), ('index range query', 'KDTreeStrategy::ClosestLanes and DoFindRoadPositions')],
     ['RoadGeometry::FindRoadPositions'],
     'property-based testing: random roads, points and radii against an exhaustive closed-form scan, both strategies',
     'Same generated roads as P01; lanes within rounding of the radius may go either way.' + SAN)
prop('P03', 'The spatial index answers nearest and range queries exactly',
     'For every set of points (duplicates, collinear and clustered ones included), every query point and every axis-aligned box, the spatial index returns a point at the minimum distance, or within the tolerance when one is given, and exactly the points the box holds. Relations between axis-aligned boxes (contains, intersects, disjoint) agree with interval arithmetic on each axis.',
     ['inputs'], 'all finite point sets in 2D and 3D, query points, tolerances and boxes',
     'Tests use a few dozen fixed points; balanced-tree pruning errors depend on the relative order of coordinates along alternating axes.',
     ['include/maliput/math/kd_tree.h', 'src/maliput/math/axis_aligned_box.cc'],
     [('median split and pruning', 'KDTree::MakeTree, KDTree::nearest_point, KDTree3D::RangeSearch')],
     ['KDTree::nearest_point', 'KDTree3D::RangeSearch', 'AxisAlignedBox'],
     'property-based testing: random point sets and boxes against linear scans',
     'Up to 300 points per case.' + SAN)
prop('P04', 'The road graph stays consistent however it is assembled',
     'Whatever the order in which junctions, segments, lanes, branch points, lane-end connections and default branches are added, every element can be reached by walking the road and by its identifier, unknown identifiers yield nothing, and parents, lane indices and left/right neighbours match the order of addition. Each connected lane end reports the lane ends on its own side and on the other side of its branch point, and its default branch if one was set last. Additions which are empty, reuse an identifier of the road, connect a lane end twice or name a default branch on the same side or elsewhere are refused, and a refused connection leaves the branch point as it was.',
     ['histories'], 'every finite sequence of assembly operations, valid and invalid, in every order',
     'Tests assemble a fixed few objects in one order; attach-before/after-parent interleavings and refused operations in the middle of a history are not explored.',
     ['src/maliput/geometry_base/road_geometry.cc', 'src/maliput/geometry_base/junction.cc', 'src/maliput/geometry_base/segment.cc', 'src/maliput/geometry_base/lane.cc', 'src/maliput/geometry_base/branch_point.cc', 'src/maliput/api/basic_id_index.cc'],
     [('indexing callbacks', 'Junction::AttachToRoadGeometry, Segment::SetLaneIndexingCallback'), ('sides of a branch point', 'BranchPoint::AddBranch, SetDefault'), ('identifier index', 'BasicIdIndex')],
     ['RoadGeometry, IdIndex, Junction, Segment, Lane, BranchPoint accessors'],
     'stateful model-based testing: random assembly histories against a reference model of the graph',
     'Histories of up to 180 operations.' + SAN)
prop('P05', 'The invariant checker reports every inconsistency and nothing else',
     'For every road whose lane ends meet smoothly at their branch points within the declared tolerances and whose elements point back to their owners, the invariant checker reports nothing. Whenever a lane end is off in position or orientation by more than the tolerance, sits on the wrong side, a branch point is empty, or an element misreports its owner or index, the checker reports it and names the element.',
     ['inputs', 'fault_sequences'], 'every road and every set of injected geometric or structural faults, at every tolerance',
     'Tests check one hand-made fault each; deviations in every direction and orientation, just above or below the tolerance, are not sampled.',
     ['src/maliput/api/road_geometry.cc', 'src/maliput/api/lane_data.cc'],
     [('G1 check at branch points', 'RoadGeometry::CheckInvariants, Rotation::Distance')],
     ['RoadGeometry::CheckInvariants'],
     'property-based testing with fault injection: smooth random roads plus injected faults, closed-form expected verdict',
     'Faults within a small band around the tolerance are not judged when several lane ends could be the reference.' + SAN)
prop('P06', 'Longitudinal ranges and routes obey interval algebra',
     'For every pair of longitudinal ranges and every tolerance, size, direction, intersection, containment and the intersected range agree with interval arithmetic on the sorted ends, ranges of different lanes are never related, and negative coordinates or a shrinking tolerance larger than half a range are refused. Two routes intersect exactly when some pair of their ranges on the same lane does, and a route is as long as the sum of its ranges. A point is included in a list of ranges exactly when it is within the linear tolerance of the lane and of the extent of at least one of them.',
     ['inputs'], 'all ranges in both directions, tolerances of both signs, lists of ranges with repeated lanes, points on and off the road',
     'Tests check a dozen hand-written ranges; repeated lanes, reversed ranges and tolerance boundaries combine freely.',
     ['src/maliput/api/regions.cc', 'include/maliput/api/regions.h'],
     [('range algebra', 'SRange, LaneSRange, LaneSRoute'), ('inclusion', 'IsIncluded')],
     ['SRange, LaneSRange, LaneSRoute, IsIncluded'],
     'property-based testing: random ranges on lattices and off them against interval arithmetic and closed-form geometry',
     'Comparisons within 1e-9 of a tolerance boundary are skipped.' + SAN)
prop('P07', 'Route sampling steps evenly along the route; contiguity means smooth joins',
     'For every end-to-end route, travelled along or against its lanes, and every positive sampling step, the waypoints lie on the lane centre lines at consecutive multiples of the effective step from the start of the route, and the last one is at its end within the linear tolerance. Two ranges are reported contiguous exactly when the end of the first and the start of the second coincide in position and orientation within the tolerances. Non-positive steps and unknown lanes are refused.',
     ['inputs', 'configurations'], 'every connected road, end-to-end route in both directions and sampling step, frame translations',
     'Tests sample two fixed routes with round steps; the carry of the step across ranges depends on the length ratios and directions.',
     ['src/maliput/api/road_geometry.cc', 'src/maliput/api/regions.cc'],
     [('step carry across ranges', 'RoadGeometry::DoSampleAheadWaypoints'), ('G1 comparison', 'IsContiguous')],
     ['RoadGeometry::SampleAheadWaypoints', 'IsContiguous'],
     'property-based testing: random routes over smooth random roads against closed-form positions',
     'At most 2000 samples per route.' + SAN)
prop('P32', 'Lane frames are translated consistently; containment respects all bounds',
     'For every lane and frame translation, mapping lane coordinates to space applies the translation once, mapping back removes it once, nearest points and distances stay consistent, and orientations are unaffected. A lane position is contained in its lane exactly when its longitudinal, lateral (segment) and elevation coordinates are within their bounds at that place, extended by the linear tolerance; a road network contains exactly the lanes of its road.',
     ['inputs', 'configurations'], 'every lane geometry, translation, lane position and point',
     'Tests use one lane with canned values and one translation; bounds that vary along the lane and positions next to each bound are not sampled.',
     ['src/maliput/geometry_base/lane.cc', 'src/maliput/api/lane.cc', 'src/maliput/api/road_network.cc'],
     [('frame translation', 'geometry_base::Lane::DoToInertialPosition, UseInertialToBackendTranslationFor'), ('bounds check', 'api::Lane::Contains')],
     ['Lane::ToInertialPosition, ToLanePosition, ToSegmentPosition, Contains'],
     'property-based testing: random lanes, translations and positions against closed-form maps',
     'Analytic lanes implement the backend hooks.' + SAN)
prop('P08', 'Lane sequences are all ways along connected lanes within the length limit',
     'For every road, pair of lanes and length limit, the sequences found are exactly the sequences of distinct lanes that lead from one to the other through connected lane ends and whose lanes in between are within the limit; without U-turns, none of them turns back within a lane, and every one which need not is found. Lane routes between two positions start and end at them, cover exactly these sequences and traverse each lane between the two of its ends that meet its neighbours.',
     ['inputs', 'configurations'], 'every lane graph (rings, parallel ways, lanes joined at equal ends), pair of lanes and limit',
     'Lane routes are tested on three fixed roads; lanes in opposite directions, rings and limits at the exact length of a sequence are not.',
     ['src/maliput/routing/find_lane_sequences.cc', 'src/maliput/routing/derive_lane_s_routes.cc'],
     [('search', 'FindLaneSequencesHelper, HasUTurn'), ('ranges', 'DeriveLaneSRoutes, DetermineEdgeS')],
     ['FindLaneSequences', 'DeriveLaneSRoutes'],
     'property-based testing: random lane graphs against exhaustive enumeration of simple paths',
     'Roads of up to 9 segments of 3 lanes; roads with hundreds of sequences are skipped.' + SAN)
prop('P09', 'The routing graph has one edge per segment and joins them where they meet',
     'For every road, the graph has exactly one edge per segment, and two segment ends share a node exactly when branch points tie them together, directly or through others; nodes list exactly their branch points and edges. The node of a lane end, the end at which an edge meets another one and all edge sequences between two nodes that visit no node twice are found, without repetition; foreign nodes are refused.',
     ['inputs', 'configurations'], 'every road topology, pair of lane ends and nodes',
     'Tests build two fixed roads; segments that share only some of their branch points and segments that start and end at one node are not among them.',
     ['src/maliput/routing/graph/graph_utils.cc', 'src/maliput/routing/graph/graph.cc'],
     [('building', 'BuildGraph'), ('queries', 'FindNode, DetermineEdgeEnd, FindAllEdgeSequences')],
     ['BuildGraph', 'FindNode', 'DetermineEdgeEnd', 'FindAllEdgeSequences'],
     'property-based testing: random topologies against union-find and exhaustive enumeration',
     'Roads of up to 9 segments of 3 lanes.' + SAN)
prop('P10', 'The router finds every drivable route that complies with the constraints',
     'For every road and pair of positions, the router returns, without repetition, every route through segments that can be driven one after the other and meets no node twice, and none that cannot be driven; each starts and ends at the given positions, is connected end to end, and its phases hold all lanes of their segments over the same stretch. With constraints exactly the routes remain whose phases and total are within the costs and which need no lane switch when none is allowed. Invalid positions, tolerances and constraints are refused.',
     ['inputs', 'configurations'], 'every road, start, end, tolerance and set of constraints',
     'The tests of the router only check its arguments.',
     ['src/maliput/base/distance_router.cc', 'include/maliput/routing/router.h', 'src/maliput/routing/routing_constraints.cc'],
     [('search and phases', 'DistanceRouter::DoComputeRoutes, MakePhase'), ('constraints', 'FilterRoutes, HasLaneSwitch')],
     ['Router::ComputeRoutes', 'Route', 'Phase'],
     'property-based testing: random smooth roads against exhaustive enumeration of drivable segment sequences',
     'Roads of up to 8 strips of lanes; positions anywhere.' + SAN)
prop('P11', 'Routes locate positions, relate ranges and lead along the fewest lane switches',
     'For every route, a point or road position is located on a range of a phase, consistently and at least as near as any centre line of the route, in the range that holds it if there is one; the relation of two ranges is the one of the documented diagram along the direction of travel, unknown when one is not in the route. A lane route from any position runs through adjacent or succeeding ranges from the one that holds the position to the end of the route, with as few lane switches in each phase as possible. Connectivity errors are reported exactly when phases do not meet, and invalid phases and routes are refused.',
     ['inputs', 'configurations'], 'every route over a road (phases cut anywhere, either direction of travel), query point and pair of ranges',
     'Tests use straight mock routes along the direction of the lanes with at most four lanes; the other direction, cuts within lanes, rings and curved lanes are not sampled.',
     ['src/maliput/routing/route.cc', 'src/maliput/routing/phase.cc'],
     [('locating', 'Phase::FindPhasePosition, Route::FindRoutePosition'), ('relations', 'Route::ComputeLaneSRangeRelation'), ('lane routes', 'Route::ComputeLaneSRoute')],
     ['Phase', 'Route'],
     'property-based testing: random routes over analytic roads against closed-form geometry and a reference of relations',
     'Routes of up to 7 phases of 4 lanes; distances may be to the volume or to the centre line; the seam of closed rings may be located at either end.' + SAN)
prop('P12', 'Rules and rule types only take states that are well formed and registered',
     'For every set of states, a discrete or range value rule is built exactly when it has at least one state, states are distinct, severities are not negative, each group of related elements has a name and no repeated member, and ranges have a minimum not above their maximum; a built rule reports what it was given. Two rule states are equal exactly when they agree in value, severity and, up to order, in related elements, whichever side is asked. The rule registry refuses a type registered before, an empty list and repeated states, reports the registered states of each type, and builds a rule only of a registered type whose states match registered ones.',
     ['inputs', 'histories'], 'every list of states and every history of registrations, queries and rule constructions',
     'Tests break one attribute of one fixed state; near-duplicate states differing in a single group member, in any order, and types registered in any order are not enumerated.',
     ['src/maliput/api/rules/rule.cc', 'include/maliput/api/rules/discrete_value_rule.h', 'include/maliput/api/rules/range_value_rule.h', 'src/maliput/api/rules/range_value_rule.cc', 'src/maliput/api/rules/rule_registry.cc', 'src/maliput/base/rule_registry.cc'],
     [('state equality and validation', 'Rule::State::operator==, Rule::ValidateRelatedRules'), ('registration and construction', 'RuleRegistry::RegisterRangeValueRule, BuildDiscreteValueRule')],
     ['DiscreteValueRule, RangeValueRule and deprecated rule constructors', 'RuleRegistry'],
     'stateful model-based property testing: random states and registry histories against plain maps and explicit validity rules',
     'Up to 5 states per rule, 14 registry operations per history.' + SAN)
prop('P13', 'The rulebook finds exactly the rules whose zone meets the queried ranges',
     'After every history of additions and removals, the rulebook holds exactly the rules added and not removed, each as it was added; querying ranges with a tolerance returns exactly the held rules of each kind some range of whose zone intersects some queried range, and nothing of removed rules. Adding an identifier that is held, removing or getting one that is not, and a negative tolerance are refused. Filtering a query result keeps exactly the rules that pass every filter of their kind.',
     ['histories', 'inputs'], 'every history of additions, removals and queries over the five kinds of rules, zones with repeated lanes, tolerances',
     'Tests add one rule of each kind and query a few ranges; removal and re-addition with zones that touch a lane several times and identifiers shared among kinds are not explored.',
     ['src/maliput/base/manual_rulebook.cc', 'include/maliput/api/rules/road_rulebook.h', 'src/maliput/base/rule_filter.cc'],
     [('range index', 'ManualRulebook::Impl::RangeIndex'), ('filters', 'FilterRules')],
     ['ManualRulebook::AddRule, RemoveRule, FindRules, GetRule, Rules', 'FilterRules'],
     'stateful model-based testing: random histories against plain maps and interval arithmetic',
     'Up to 40 operations, 4 lanes and 6 identifiers per kind.' + SAN)
prop('P14', 'State providers report exactly the states that were set',
     'After every history of settings, the discrete, range and right-of-way state providers report for each rule the state, next state and duration of its last accepted setting, and nothing for rules never set. Setting a state of an unknown rule, a state that is not one of the rule\'s, a duration without a next state or a duration that is not positive is refused and changes nothing. A query by road position and rule type answers with the state of a rule of that type whose zone holds the position.',
     ['histories'], 'every history of settings and queries over random rulebooks',
     'Tests set one or two states of one rule; refused settings in the middle of a history and overlapping zones are not explored.',
     ['src/maliput/base/manual_discrete_value_rule_state_provider.cc', 'src/maliput/base/manual_range_value_rule_state_provider.cc', 'src/maliput/base/manual_right_of_way_rule_state_provider.cc'],
     [('state maps', 'ManualDiscreteValueRuleStateProvider::SetState and its siblings')],
     ['GetState and SetState of the manual state providers'],
     'stateful model-based testing: random histories of settings and queries against plain maps',
     'Road positions whose rules have no state set may be answered with nothing or refused.' + SAN)
prop('P15', 'Phase rings are well formed, and books and providers report what was set',
     'A phase ring is built exactly when it has a phase, its phases have distinct identifiers and cover the same rules and bulbs, and next phases, when given, are given for exactly its phases and name phases of the ring; it then reports each phase and its next phases as given. After every history of additions and removals, the phase ring book holds exactly the rings accepted and not removed, finds for each rule the one ring that covers it, and refuses, without traces, repeated identifiers and rules of another ring. The phase provider reports for each known ring the phase, next phase and duration set last, refuses unknown or repeated rings and durations without a next phase, and a default one starts every ring of the book in one of its phases with one of the next phases of it.',
     ['inputs', 'histories'], 'all phase rings, well formed and broken, and all histories over books and providers',
     'Tests build one ring per rejection; asymmetric coverage differences, later phases being the odd one and refused additions in the middle of a history are not sampled.',
     ['src/maliput/api/rules/phase_ring.cc', 'src/maliput/api/rules/phase.cc', 'src/maliput/base/manual_phase_ring_book.cc', 'src/maliput/base/manual_phase_provider.cc'],
     [('coverage validation', 'VerifyAllPhasesHaveSameCoverage, VerifyNextPhases'), ('rule to ring index', 'ManualPhaseRingBook::Impl'), ('current phases', 'ManualPhaseProvider::Impl')],
     ['PhaseRing', 'ManualPhaseRingBook', 'ManualPhaseProvider'],
     'stateful model-based property testing: random rings with one broken attribute and random histories against plain maps',
     'Rings of up to 5 phases, books of up to 5 rings. A ring mixing absent with empty bulb states is not judged.' + SAN)
prop('P16', 'Rules of a phase ring are in the state of the current phase',
     'At every moment of every history of phase changes and manual settings, a rule covered by a ring with a known phase is in the state the current phase gives it, with the next state and duration given by the next phase; other discrete rules are in the state last set manually, and unknown rules have none. Querying by road position and type answers with such a state of a rule of the type whose zone holds the position. The right-of-way provider based on phases does the same for right-of-way rules.',
     ['histories'], 'every history of phase changes and settings over random rulebooks and rings',
     'Tests use one ring with fixed phases; precedence between phases and manual settings set before and after is not explored over histories.',
     ['src/maliput/base/phased_discrete_rule_state_provider.cc', 'src/maliput/base/phase_based_right_of_way_rule_state_provider.cc'],
     [('state from the current phase', 'PhasedDiscreteRuleStateProvider::DoGetState, PhaseBasedRightOfWayRuleStateProvider::DoGetState')],
     ['GetState of both providers'],
     'stateful model-based testing: random histories against a reference model of rings, phases and settings',
     'Up to 5 rules, 3 rings and 16 operations; next phases are phases of the ring.' + SAN)
prop('P17', 'Traffic lights are well formed trees with unique names',
     'Bulbs are built exactly when they have an arrow direction if and only if they are arrows; groups need bulbs, and groups and lights refuse null or repeated members. Every element reports what it was given, its parent, its members by identifier and a unique identifier made of the identifiers on its path; a bulb without listed states can be off and on, and its default state is the first it has of off, blinking and on. Unique identifiers are equal exactly when all their parts are, the book holds every light once under its identifier.',
     ['inputs', 'histories'], 'all trees of lights, groups and bulbs, well formed and broken',
     'Tests build one light with two groups; identifier collisions across separators and every subset of states are not sampled.',
     ['src/maliput/api/rules/traffic_lights.cc', 'include/maliput/api/rules/traffic_lights.h', 'src/maliput/base/traffic_light_book.cc'],
     [('validation', 'Bulb, BulbGroup and TrafficLight constructors'), ('identity', 'UniqueBulbId, UniqueBulbGroupId')],
     ['Bulb, BulbGroup, TrafficLight, TrafficLightBook'],
     'property-based testing: random trees with broken attributes against explicit rules, and identifier algebra',
     'Lights of up to 3 groups of 4 bulbs.' + SAN)
prop('P18', 'Intersections report the current phase and are found by what they hold',
     'At every moment, an intersection reports the phase of its ring, and the rule and bulb states of that phase. Setting its phase changes it for every intersection of the ring; unknown rings and durations without a next phase are refused. While a phase is set, an intersection includes exactly the traffic lights and rules its ring covers, and the points within the linear tolerance of its region; the book finds an intersection by each of them exactly when one includes it, finds exactly the intersections whose region meets given ranges, and refuses null intersections and repeated identifiers.',
     ['histories', 'inputs'], 'every set of intersections over a road, every history of phase changes, all queries',
     'Tests use one or two fixed intersections; shared rings, overlapping regions and refused additions are not sampled.',
     ['src/maliput/api/intersection.cc', 'src/maliput/base/intersection.cc', 'src/maliput/base/intersection_book.cc'],
     [('states of the current phase', 'api::Intersection::bulb_states, DiscreteValueRuleStates'), ('lookups', 'IntersectionBook::FindIntersections, DoGetFindIntersection')],
     ['Intersection', 'IntersectionBook'],
     'stateful model-based testing: random intersections over analytic roads against a reference model and closed-form geometry',
     'Inclusion by identifier is only judged while the ring has a current phase; regions have at least one range.' + SAN)
prop('P19', 'Loaded documents mean exactly what is written in them',
     'For every well-formed document describing a rule registry, a rulebook (of registered rule types, or of right-of-way and direction usage rules), traffic lights, phase rings or intersections, loading it from text or from a file yields exactly the described elements: identifiers, zones, states with their severities and related rules and ids, poses, bulbs, phases, transitions, intersections and their initial phases. Attributes left out take their documented default value, independently for every element (a phase does not inherit states from another one). Presentation (block or flow style, quoting, comments, anchors, order of attributes) makes no difference.',
     ['inputs'], 'all well-formed documents of each kind, over every road, registry, rulebook and traffic light book they refer to',
     'Tests load one or two fixed documents per loader, each written in one style with nearly all attributes present; defaults interacting across several elements are not sampled.',
     ['src/maliput/base/rule_registry_loader.cc', 'src/maliput/base/road_rulebook_loader_using_rule_registry.cc', 'src/maliput/base/road_rulebook_loader.cc', 'src/maliput/base/traffic_light_book_loader.cc', 'src/maliput/base/phase_ring_book_loader.cc', 'src/maliput/base/phase_ring_book_loader_old_rules.cc', 'src/maliput/base/intersection_book_loader.cc', 'src/maliput/base/yaml_conversion.cc'],
     [('default states of a phase', 'BuildPhaseRing, CreateDefaultRuleStates, LoadBulbStates'), ('discrete counterparts of right-of-way rules', 'BuildRightOfWayTypeDiscreteValueRule'), ('initial phases', 'BuildIntersection')],
     ['LoadRuleRegistry', 'LoadRoadRulebook', 'LoadTrafficLightBook', 'LoadPhaseRingBook', 'LoadPhaseRingBookOldRules', 'LoadIntersectionBook', 'and their FromFile variants'],
     'property-based testing: random models written as YAML with random presentation, loaded and compared with the model',
     'The parser itself (yaml-cpp) is trusted; empty groups of related rules are not judged.' + SAN)
prop('P20', 'Malformed documents are refused with an exception and nothing worse',
     'Whatever text is given to a document loader, it either loads or is refused with an exception derived from std::exception; the process never crashes or aborts. A document which lacks a required attribute, has a value of the wrong kind, names an unknown lane, rule, rule type, value, bulb, phase or ring, repeats an identifier, or holds a zone outside of its lane, a negative severity or a reversed range is refused. Whatever loads is sound: zones lie on lanes of the road and phases, rings and intersections only refer to things which exist.',
     ['inputs'], 'all texts given to each loader',
     'Tests feed each loader a few hand-made bad documents; they cannot enumerate ill-formed texts, and a crash needs one particular combination.',
     ['src/maliput/base/rule_registry_loader.cc', 'src/maliput/base/road_rulebook_loader_using_rule_registry.cc', 'src/maliput/base/road_rulebook_loader.cc', 'src/maliput/base/traffic_light_book_loader.cc', 'src/maliput/base/phase_ring_book_loader.cc', 'src/maliput/base/phase_ring_book_loader_old_rules.cc', 'src/maliput/base/intersection_book_loader.cc', 'src/maliput/base/yaml_conversion.cc'],
     [('checks of each attribute', 'BuildFrom and the Get/Build functions of each loader'), ('zone limits', 'ObtainSRange, GetSRange')],
     ['LoadRuleRegistry', 'LoadRoadRulebook', 'LoadTrafficLightBook', 'LoadPhaseRingBook', 'LoadPhaseRingBookOldRules', 'LoadIntersectionBook'],
     'structure-aware fuzzing: valid random documents with one known breakage, random tree changes or random text changes, under sanitizers',
     'Unknown extra attributes may be accepted or refused. Texts are mutated valid documents of up to a few kilobytes.' + SAN)
prop('P21', 'The network validator accepts sound networks and refuses each kind of defect',
     'For every road network and every set of enabled checks, validation throws exactly when an enabled check finds its kind of defect, wherever in the network it is, and ignores the defects of checks which are off. The kinds are: lanes without direction usage rule, ends of lanes which do not meet or elements which misreport their owner or index, incomplete hierarchies (missing children, branch points or index entries), related bulb groups, phase bulb states, phase rule states and related rules which refer to something absent, and rule zones which are not smoothly contiguous.',
     ['inputs', 'configurations', 'fault_sequences'], 'every network (road, rules, lights, phase rings), every set of defects in any of their elements, every subset of checks',
     'Tests validate a mock network with one option on and one hand-made defect per check; defects in later elements (second phase, later state, last range) are where a loop that stops early goes unnoticed.',
     ['src/maliput/api/road_network_validator.cc', 'src/maliput/api/regions.cc', 'src/maliput/api/road_geometry.cc'],
     [('checks', 'ValidateRoadNetwork and its Check... functions'), ('phases', 'WalkPhases')],
     ['ValidateRoadNetwork'],
     'property-based testing with fault injection: valid random networks plus known faults, random subsets of checks, expected verdict by construction',
     'Networks of up to 4 strips of lanes, 5 rules, 3 lights and 3 rings.' + SAN)
prop('P30', 'Comparisons find values equal exactly when every part of them is equal',
     'Comparing two rules, rule states, phases, phase rings, traffic lights, positions, ranges, points or boxes reports equality exactly when all their parts are equal, in either order of the arguments, and never throws or crashes on valid values. Comparisons with a tolerance accept exactly differences within it, part by part, and treat infinities and NaNs as equal only to themselves. Identifiers, hashes and orders agree with equality: equal values hash alike, and orders are strict and total on distinct values.',
     ['inputs'], 'all pairs of values that differ in any subset of their parts, tolerances and infinities included',
     'Tests compare a value with copies changed in one hand-picked part; the parts no test changes (severities, missing keys, optional parts) are exactly where differences go unnoticed.',
     ['src/maliput/api/rules/compare.cc', 'src/maliput/api/compare.cc', 'src/maliput/math/compare.cc', 'src/maliput/geometry_base/strategy_base.cc', 'include/maliput/api/type_specific_identifier.h'],
     [('part by part comparisons', 'api::rules::IsEqual, api::IsEqual, IsRoadPositionClose and siblings'), ('arrays', 'CompareVectors, CompareMatrices')],
     ['IsEqual and Is...Close overloads', 'CompareVectors, CompareMatrices', 'TypeSpecificIdentifier'],
     'property-based testing: injectively generated pairs of values differing in a known set of parts against that set',
     'Values with up to a few parts per container; containers with repeated members are not judged.' + SAN)
prop('P22', 'Rotations agree in every representation',
     'For every rotation, its quaternion, rotation matrix and roll-pitch-yaw angles convert into one another without changing the rotation, gimbal lock and non-unit quaternions included; angles come back in their principal ranges. Composition, inverse, conjugate, interpolation, angular distance, the rotation between two vectors and the derivative of the matrix agree with elementary rotations about axes. Orientations of the road apply, reverse and compare accordingly.',
     ['inputs'], 'all rotations, axes, angles of any size, non-unit quaternions, pairs of vectors (parallel and opposite ones included)',
     'Tests compare a few hand-computed rotations; branch selection by trace, signs, gimbal lock and opposite vectors depend on the values.',
     ['src/maliput/math/quaternion.cc', 'src/maliput/math/roll_pitch_yaw.cc', 'src/maliput/api/lane_data.cc'],
     [('conversions', 'Quaternion(Matrix3), RollPitchYaw::SetFromQuaternion'), ('shortest rotation', 'Quaternion::SetFromTwoVectors, Slerp'), ('road orientations', 'api::Rotation')],
     ['Quaternion, RollPitchYaw, api::Rotation'],
     'property-based testing: random rotations against Rodrigues\' formula, numerical derivatives and round trips',
     'Comparisons within 1e-6 to 1e-9.' + SAN)
prop('P23', 'Vectors and matrices compute linear algebra and keep their text',
     'For every vector and matrix, sums, differences, scalings, products, norms, transposes, minors, cofactors, determinants, adjoints and inverses equal the defining formulas; singular matrices have no inverse, and indices out of range and lists of the wrong size are refused. Equality is component by component. A vector written as text is read back with the same components to the precision of the text, and texts with missing braces, with other than the right number of components or without numbers are refused.',
     ['inputs'], 'all vectors and matrices of dimensions 1 to 4, all finite components',
     'Tests compute one or two fixed examples of each operation; swapped indices and signs cancel on symmetric examples.',
     ['src/maliput/math/vector.cc', 'src/maliput/math/matrix.cc'],
     [('linear algebra', 'VectorBase, Vector3::cross, Matrix'), ('text', 'VectorBase::to_str, FromStr')],
     ['Vector, Vector2, Vector3, Vector4, Matrix2, Matrix3, Matrix4'],
     'property-based testing: random integer-valued matrices and vectors against exact integer arithmetic; text round trips',
     'Integer components scaled by powers of two, so that every expected value is exact; inverses within 1e-12.' + SAN)
prop('P24', 'Oriented boxes hold their points and overlap as solids',
     'For every oriented box, its vertices are its half sizes turned by its orientation about its position, and it contains exactly the points which are within its tolerance of the turned box. A box contains another exactly when it contains all its vertices, two boxes intersect exactly when no axis separates them (gaps up to the tolerance may go either way), both ways round, and the kind of overlap reported is the corresponding one. Negative sizes and tolerances are refused.',
     ['inputs'], 'all boxes (positions, sizes, orientations, tolerances), points and pairs of boxes',
     'Tests use cubes turned by 45 degrees, which are symmetric under inverse rotations, and a single pair of positions.',
     ['src/maliput/math/bounding_box.cc', 'include/maliput/math/bounding_box.h'],
     [('orientation', 'BoundingBox::get_vertices, DoContains'), ('separating axes', 'BoundingBox::IsBoxIntersected')],
     ['BoundingBox::Contains, IsBoxContained, IsBoxIntersected, Overlaps, get_vertices'],
     'property-based testing: random boxes built apart, touching, nested or around a common point against separating axes in closed form',
     'Gaps below 1e-5 of the size of the boxes are not judged.' + SAN)
prop('P25', 'Arc lengths, Fresnel integrals and range validation are accurate everywhere',
     'For every positive speed function, the length along it and the parameter at a length agree with the integral of the speed and with each other within the accuracy asked for, on the whole domain given; values out of the domain by less than the tolerance are saturated and others refused. Fresnel integrals agree with quadrature for arguments of any size and sign. Range validation returns the closest value within the open range for values within the tolerance, refuses others and refuses inconsistent parameters; saturation clamps to the range.',
     ['inputs', 'configurations'], 'all arguments, domains, speed functions with closed-form lengths, contexts, tolerances and epsilons',
     'Tests integrate a line and a circle and sample a table of Fresnel values; regime switches, rounding at domain ends and offsets of the domain depend on the values.',
     ['src/maliput/drake/arc_length_integrator.cc', 'src/maliput/drake/inverse_arc_length_integrator.cc', 'src/maliput/math/fresnel.cc', 'src/maliput/math/saturate.cc', 'src/maliput/common/range_validator.cc'],
     [('integration', 'ArcLengthIntegrator, InverseArcLengthIntegrator'), ('regimes', 'fresnel()'), ('clamping', 'RangeValidator::operator(), saturate')],
     ['ArcLengthIntegrator, InverseArcLengthIntegrator, ComputeFresnelCosineAndSine, RangeValidator, saturate'],
     'property-based testing: random functions, domains and arguments against closed forms and Gauss-Legendre quadrature',
     'Integrals within 1e-4 relative; Fresnel integrals within 1e-11 up to 10 and within the error of the tail beyond.' + SAN)
prop('P26', 'Generated meshes cover the surfaces they depict',
     'For every segment, lane and set of features, the asphalt and haze meshes cover each place of the surface of the segment and of its lanes exactly once, right way up, at the height asked for and nowhere else up to the tolerance; stripes and arrows mark the bounds and both ends of each lane, elevation bounds and branch points are where they are. Each part goes to the mesh of its material, parts of highlighted segments to the grayed ones, and the features which are switched off are absent. Written OBJ, MTL and URDF files hold those same meshes, materials and references.',
     ['inputs', 'configurations'], 'all segments (straight, tilted, curved, tapering, with zero-width ends), networks of branch points, features and highlighted segments',
     'Tests mesh a handful of flat rectangular lanes and compare counts of vertices; gaps and overlaps show with widths that change, off-centre lanes and particular ratios of widths to grids.',
     ['src/maliput/utility/generate_obj.cc', 'src/maliput/utility/generate_urdf.cc', 'include/maliput/utility/generate_obj.h'],
     [('cover', 'CoverLaneWithQuads, GenerateOptimizedRoadMesh, GeneratePreciseRoadMesh'), ('marks', 'StripeLaneBounds, MarkLaneEnds, RenderBranchPoint'), ('files', 'GenerateObjFile, GenerateUrdfFile')],
     ['BuildMeshes, BuildMesh, BuildRoadGeometryMesh', 'GenerateObjFile, GenerateUrdfFile'],
     'property-based testing: point location in the generated meshes against closed-form lanes; files parsed back and compared with the meshes',
     'Places closer to a border than the chord error of the grid are not judged, nor are lane sides below 1 um wide.' + SAN)
prop('P27', 'Meshes keep every face and simplification keeps the surface',
     'A mesh holds exactly the faces pushed into it, with shared vertices and normals stored once, and writes them as valid OBJ text; distances to lines and planes, faces adjacent along each edge, contours of regions and coplanar groups are exact. Simplifying a contour or a mesh keeps each vertex it removes within the tolerance, invents no vertex, merges each region of coplanar faces, and the result covers each place of the surface exactly once, holes included.',
     ['inputs'], 'all meshes of polygons over planar, folded and bumpy surfaces with holes, orders of faces and vertices, placements and tolerances',
     'Tests simplify three fixed meshes of two to four faces; holes, regions touching in a vertex, normals which are not units and orders of faces are not among them.',
     ['src/maliput/utility/mesh_simplification.cc', 'include/maliput/utility/mesh_simplification.h', 'include/maliput/utility/mesh.h'],
     [('container', 'GeoMesh::PushFace, EmitObj'), ('regions', 'ComputeFaceAdjacencyMap, AggregateAdjacentCoplanarMeshFaces, ComputeMeshFacesContour'), ('simplification', 'SimplifyMeshFaceContour, SimplifyMeshFaces')],
     ['GeoMesh', 'mesh_simplification.h functions'],
     'property-based testing: random meshes against brute-force geometry, point location over the simplified surface and parsing of the written text',
     'Surfaces are fields of planar strips with pyramids and pits, whose regions may have holes.' + SAN)
prop('P31', 'Text and graph exports and confluence mirror the road',
     'For every road and set of options, the text names exactly the elements asked for, in order and indented under those which hold them, with the lengths, end positions and neighbours of each lane. The DOT text of a graph has exactly one edge per segment between its nodes, in red exactly for the segments of the route, and graphs without some segment of the route are refused. Segments belong to one confluent component exactly when a chain of segments whose ends share a side of a branch point joins them.',
     ['inputs', 'configurations'], 'all roads, options, routes and graphs',
     'Tests print mock roads with one or two lanes and compare components of unconnected segments only.',
     ['src/maliput/utility/generate_string.cc', 'src/maliput/utility/generate_dot.cc', 'src/maliput/utility/segment_analysis.cc'],
     [('text', 'GenerateString'), ('graph', 'GenerateDotStream'), ('components', 'FindConfluentSegments, AnalyzeConfluentSegments')],
     ['GenerateString', 'GenerateDotStream', 'AnalyzeConfluentSegments'],
     'property-based testing: random roads against text built from their specification, parsed DOT and union-find over branch point sides',
     'Identifiers without quotes. Lanes whose road has no confluent sets at all are not judged (a test pins them to empty components).' + SAN)
prop('P28', 'The thread pool runs every task exactly once',
     'For every history of queueing, starting, cancelling, finishing and destroying, each task which is not cancelled runs exactly once, on one of the n threads of the pool, after the start; its value or exception arrives in its future, and tasks run after others throw. All n threads take tasks at once and no more than n; finishing returns once every task ran and never hangs. Cancelled tasks never run and break their promise, and queueing or starting after the end, starting twice and pools without threads are refused.',
     ['operation_sequences', 'schedules'], 'all histories of a pool of 1 to 6 threads and all interleavings of its threads with its owner',
     'Tests run three fixed histories with sleeps; lost wake-ups, tasks dropped at the end and pools which are destroyed unstarted need particular interleavings.',
     ['src/maliput/utility/thread_pool.cc', 'include/maliput/utility/thread_pool.h'],
     [('life cycle', 'ThreadPool::Start, Finish, DoWork'), ('queue', 'ThreadPool::Queue, cancel_pending')],
     ['ThreadPool', 'futures it returns'],
     'stateful property-based testing of random histories against a model, with gates that hold threads, random delays around each synchronization point, and the thread sanitizer',
     'Schedules are sampled, not enumerated: delays are random and spread over four orders of magnitude. Built with the thread sanitizer.')
prop('P29', 'Plugins and files are discovered completely and the last one wins',
     'For every directory tree and search path, discovery finds exactly the files with the suffix below each directory, once each, and loads exactly the plugins in the valid directories of the path; for an id found several times the one found last prevails, and adding a plugin replaces the one of its id. Looking up, listing and calling symbols reach the prevailing plugin; unknown ids, missing symbols, files which are no plugins and plugins of another type are refused and leave the others as they were. Road networks are created by the plugin asked for with the properties given.',
     ['inputs', 'operation_sequences', 'configurations'], 'all directory trees, search paths (missing, repeated, empty parts included), sets of plugins and sequences of additions',
     'Tests install four plugins in two fixed directories; precedence among directories, nested ones, broken parts of the path and failures in the middle of a sequence are not sampled.',
     ['src/maliput/plugin/maliput_plugin_manager.cc', 'src/maliput/plugin/maliput_plugin.cc', 'src/maliput/plugin/create_road_network.cc', 'src/maliput/utility/file_utils.cc'],
     [('discovery', 'GetPluginLibraryPaths, GetAllFilePathsFromDirectory, GetAllPathsFromEnvironment'), ('registry', 'MaliputPluginManager::AddPlugin, GetPlugin')],
     ['MaliputPluginManager, MaliputPlugin', 'MakeRoadNetworkLoader, CreateRoadNetwork', 'file_utils functions'],
     'model-based property-based testing in scratch directories, with generated plugins of known ids, versions and types',
     'Among plugins of one id below one directory any may prevail (the order of a directory is unspecified). File names which end in the suffix without a dot are not judged.' + SAN)
prop('P33', 'Cached results of systems are never stale and their contexts stay apart',
     'For every system, every declaration of prerequisites and every history of changes to a context (time, accuracy, continuous, discrete and abstract state, parameters, input values) made through any of its methods, a result (cache entry, output port, derivatives, energies) read from the context equals the one computed from what the context holds now; it is computed at most once per change of what it depends on, always where caching is disabled, and never while the cache is frozen. A context holds exactly what was set; clones start with the same contents and then change independently. Direct feedthrough is reported wherever an output depends on an input. Periodic events are due at offset + k*period for every k, each once; per step, initialization and periodic events reach their handlers exactly once, and updates change the state only when they are applied. Constraints declared, implied by bounds of vectors or added from outside hold exactly when their values are within their bounds, and witnesses trigger on the changes of sign of their direction.',
     ['operation_sequences', 'inputs'], 'all systems with up to a handful of states, parameters, ports and results which depend on each other, all histories of changes, copies and evaluations over several contexts; all sets of events and timelines',
     'There are no tests of this part: whether a result is stale depends on which sources it declares, through which other results, and on the order of changes, copies and evaluations.',
     ['src/maliput/drake/systems/framework/context.cc', 'src/maliput/drake/systems/framework/context_base.cc', 'src/maliput/drake/systems/framework/cache.cc', 'src/maliput/drake/systems/framework/cache_entry.h', 'src/maliput/drake/systems/framework/dependency_tracker.cc', 'src/maliput/drake/systems/framework/leaf_system.cc', 'src/maliput/drake/systems/framework/system.cc', 'src/maliput/drake/systems/framework/vector_base.h', 'src/maliput/drake/systems/framework/event_collection.h'],
     [('changes announced', 'Context, ContextBase, DependencyTracker'), ('cached results', 'Cache, CacheEntry, LeafOutputPort'), ('events', 'LeafSystem::DoCalcNextUpdateTime, LeafEventCollection'), ('vectors', 'BasicVector, Subvector')],
     ['Context', 'LeafSystem', 'CacheEntry', 'BasicVector, Subvector'],
     'property-based testing: model-based histories of contexts over random systems, timelines of events, vectors against Eigen',
     'That more results than necessary are computed again after a change is judged only where the documentation does not allow it. Diagrams of systems are not part of this repository.' + SAN)
prop('P34', 'Paths and files behave like the file system they name',
     'For every sequence of operations, a path reports exactly whether it exists and what it names, normalizes trailing slashes and joins parts; creating (with or without parents) and removing succeed exactly when the file system allows it, change nothing else, and creating with parents succeeds on existing directories. Reading a file gives exactly its bytes, reading anything else fails and returns.',
     ['operation_sequences', 'inputs'], 'all trees, relative and absolute paths, file contents (binary ones included) and sequences of operations',
     'No test addresses these functions; one-letter relative paths, existing targets, directories where files are expected and binary contents are unusual inputs.',
     ['src/maliput/common/filesystem.cc', 'include/maliput/common/filesystem.h'],
     [('operations', 'Filesystem'), ('normalization', 'Path::set_path, append')],
     ['Filesystem, Path'],
     'model-based property-based testing: random operation sequences in a scratch directory against a model tree, compared in full after each step',
     'Regular files and directories only. Appending to empty paths is not judged.' + SAN)
prop('P35', 'Logger, hashes, result collector and number formatting',
     'The logger passes each message at or above its level, with the prefix of its level and all its arguments in order, to the current sink only, and reports the previous level on changes; unknown levels and missing sinks are refused. Equal values of every composition of parts have equal hashes (signed zeros included) and each part and size of a collection contributes. The collector counts and reports every failed comparison, and numbers are formatted with exactly the digits asked for, correctly rounded.',
     ['inputs', 'operation_sequences'], 'all histories of a logger, nested values, lists of results, numbers and precisions',
     'Tests log one fixed message per level and hash a few values.',
     ['src/maliput/common/logger.cc', 'include/maliput/common/logger.h', 'include/maliput/common/maliput_hash.h', 'include/maliput/common/compare.h', 'src/maliput/utility/string_format.cc'],
     [('filter', 'Logger::log, set_level'), ('hash_append overloads', 'maliput_hash.h'), ('collector', 'ComparisonResultCollector')],
     ['Logger, set_log_level', 'DefaultHash', 'ComparisonResultCollector', 'to_str'],
     'model-based property-based testing; hashes against the FNV-1a hash of independently serialized parts',
     'Up to four arguments per message.' + SAN)
prop('P36', 'Positions, velocities, bounds and lane ends are faithful values',
     'A position in the inertial or the lane frame reads back, by component, as a vector and as text, exactly what was last set by any mix of constructors, whole and single-component setters, copies and assignments, and no update of one object changes a copy; sums, differences, multiples, lengths, distances and equality of inertial positions are those of their vectors. Lateral and elevation bounds hold the last accepted minimum and maximum, and every constructor or setter call which would leave a positive minimum, a negative maximum or not-a-number there is refused without any effect. Lane ends are strictly and completely ordered by lane and end, and a road position maps to where its lane puts it, or throws when it has no lane.',
     ['inputs', 'operation_sequences'], 'all histories of updates and copies of such values, over all finite numbers, infinities and not-a-number where they are refused',
     'Tests call each setter once on one value.',
     ['include/maliput/api/lane_data.h', 'src/maliput/api/lane_data.cc'],
     [('InertialPosition, LanePosition', 'lane_data.h'), ('RBounds, HBounds', 'lane_data.h: constructors, set_min, set_max'), ('LaneEnd::StrictOrder', 'lane_data.h')],
     ['x(), y(), z(), xyz(), s(), r(), h(), srh()', 'operator+, -, *, ==, length, Distance', 'RBounds, HBounds', 'LaneEnd::StrictOrder'],
     'model-based property-based testing: random histories of updates over a pool of values against plain arrays of numbers',
     'Positions which differ by less than 1e-6 may be equal or not; text is compared to five digits.' + SAN)
prop('P37', 'Polynomials and polynomial trajectories compute what they stand for',
     'A polynomial obtained by any sequence of sums, differences, products, powers, quotients by numbers, substitutions, renamings, derivatives and integrals, operands aliased or not, evaluates, fully or partially, to the number which those operations define, reports the degree and the variables it has, and names of variables read back as they were given. A trajectory obtained by any mix of construction, concatenation, appending, slicing, shifting, scaling, reversing, differentiation, integration and arithmetic evaluates at every time, breaks and times out of its domain included, to the value of the segment the time belongs to, and splines pass through their samples with the promised continuity and end conditions.',
     ['inputs', 'operation_sequences'], 'all sequences of operations over polynomials of several variables and over trajectories with any number of segments, and all samples of splines',
     'Few tests of the repository address these classes: self-assignments, several variables which cancel or become equal, times at or beyond breaks and long histories of edits are out of their reach.',
     ['src/maliput/drake/common/polynomial.cc', 'src/maliput/drake/common/polynomial.h', 'src/maliput/drake/common/trajectories/piecewise_polynomial.cc', 'src/maliput/drake/common/trajectories/piecewise_trajectory.cc', 'src/maliput/drake/common/trajectories/trajectory.cc'],
     [('algebra', 'Polynomial: operators, Substitute, Subs, EvaluatePartial, Derivative, Integral'), ('segments', 'PiecewiseTrajectory::get_segment_index; PiecewisePolynomial::value'), ('splines', 'PiecewisePolynomial: ZeroOrderHold, FirstOrderHold, CubicHermite, CubicShapePreserving, CubicWithContinuousSecondDerivatives')],
     ['Polynomial', 'PiecewisePolynomial', 'Trajectory::vector_values, MakeDerivative'],
     'model-based property-based testing: random operation sequences against exact integer maps of exponents, and against segment lists of plain coefficients',
     'Products of matrix trajectories are judged for one element only. The order of equal terms is not judged.' + SAN)
prop('P38', 'Initial value problems and antiderivatives are solved to the accuracy asked for',
     'For every right hand side, initial condition, time, parameters and accuracy, the solution of an initial value problem and the integral of a function are within the accuracy asked for of the exact ones; it does not matter which times, states and parameters the same object solved before; specified values override the defaults for that call only, and sizes which do not match are refused without effect. Dense and stepwise outputs agree with direct solutions within their domain, refuse times out of it, and reject steps which are not consistent.',
     ['operation_sequences', 'inputs'], 'all families of smooth problems with known solutions, all histories of solutions of one object, all sequences of updates, rollbacks and consolidations of outputs',
     'Tests solve a problem once per object; caches, defaults which stick and times before the last solution need histories.',
     ['src/maliput/drake/systems/analysis/initial_value_problem.cc', 'src/maliput/drake/systems/analysis/integrator_base.cc', 'src/maliput/drake/systems/analysis/runge_kutta3_integrator.cc', 'src/maliput/drake/systems/analysis/scalar_initial_value_problem.h', 'src/maliput/drake/systems/analysis/antiderivative_function.h', 'src/maliput/drake/systems/analysis/hermitian_dense_output.h'],
     [('cache of the last solution', 'InitialValueProblem::Solve'), ('error control', 'IntegratorBase, RungeKutta3Integrator'), ('outputs', 'HermitianDenseOutput, StepwiseDenseOutput')],
     ['InitialValueProblem, ScalarInitialValueProblem', 'AntiderivativeFunction', 'HermitianDenseOutput'],
     'property-based testing: random histories of solutions against closed forms, fresh objects and quadrature',
     'Problems are well conditioned; a tolerance of four times the accuracy is granted. Dense outputs over an empty interval are not judged.' + SAN)
prop('P39', 'Values, owners, indices, identifiers, hashes and type names are what they say',
     'A type-erased value keeps its type and value over any history of assignments, clones and in-place changes, hands them out to requests for exactly that type, refuses all others without effect, and copies of objects with Clone() keep their most derived class. A copyable pointer owns exactly one object, copies deeply, moves without copying and never leaks; values reset on copy are copied as zero and moved as they are; casts between owning pointers transfer the object if and only if it fits. Type-safe indices compare with indices, integers and unsigned integers of any width, on either side, and compute as numbers do, refusing what leaves their range; identifiers are unique over all threads. Equal values hash equally however they were built, different ones feed different bytes to the hasher. Densities are those of the distributions, and names of types do not depend on how the compiler spells them.',
     ['operation_sequences', 'inputs', 'schedules'], 'all histories of such objects, self-assignments included; all values at the ends of the ranges; any number of threads; all spellings of names',
     'There are no tests of this part, and everything else (parameters, events, rules looked up by hash) is built on it.',
     ['src/maliput/drake/common/value.h', 'src/maliput/drake/common/copyable_unique_ptr.h', 'src/maliput/drake/common/reset_on_copy.h', 'src/maliput/drake/common/pointer_cast.h', 'src/maliput/drake/common/type_safe_index.h', 'src/maliput/drake/common/identifier.h', 'src/maliput/drake/common/hash.h', 'src/maliput/drake/common/random.cc', 'src/maliput/drake/common/nice_type_name.cc'],
     [('values', 'AbstractValue, Value'), ('owners', 'copyable_unique_ptr, reset_on_copy, dynamic_pointer_cast'), ('numbers', 'TypeSafeIndex, Identifier'), ('hashes and names', 'hash_append, NiceTypeName::Canonicalize')],
     ['AbstractValue', 'copyable_unique_ptr', 'TypeSafeIndex', 'Identifier', 'hash_append'],
     'model-based property-based testing: histories against plain numbers and counted objects, recorded bytes of hashers, names rendered from generated trees',
     'Whether one belongs to the range of the uniform density is not judged, nor what an index holds after a refusal.' + SAN)
