prop('C01', 'Inverted and derived linestring views show one shared point sequence',
     '''For every linestring, the inverted view has the same points in reverse order, shares identity and storage with it, and
     inverting twice gives the original. Every read or write through a view (indexing, iterators, ends, insertion, erasure,
     appending, removal, resizing, clearing, assignment of points, segments) concerns exactly the position meant in the order of
     that view, leaves all other points as they are, and is seen by every other view of the same linestring. Polygon, 2d,
     hybrid and plain-geometry views of a linestring have the same points in the same order, with n-1 segments for an open
     line of n points and n closing segments for a polygon.''',
     ['inputs', 'histories'],
     'all linestrings of any length, direction and sharing, all positions, all sequences of view operations',
     '''The tests exercise a few fixed linestrings of 3 points; the property quantifies over every length, position and
     direction, and over all data sharing.''',
     ['lanelet2_core/include/lanelet2_core/primitives/LineString.h', 'lanelet2_core/include/lanelet2_core/primitives/Polygon.h',
      'lanelet2_core/include/lanelet2_core/utility/ReverseAndForwardIterator.h'],
     [('ReverseAndForwardIterator: position to storage mapping', 'utility/ReverseAndForwardIterator.h'),
      ('ConstLineStringImpl / LineStringImpl operations on inverted views', 'primitives/LineString.h')],
     [('points and inverted flag', 'the shared sequence of points and the direction of one view', 'primitives/LineString.h')],
     ['return values of the linestring, polygon and hybrid interfaces'])
prop('C02', 'Lanelet bounds are consistent under inversion and replacement',
     '''For every lanelet, the inverted lanelet has the reversed right bound as its left bound and the reversed left bound as its
     right bound, shares identity and data with it, and inverting twice gives the original. Replacing a bound through either
     view changes exactly the bound meant in that view and is seen by every view of the lanelet, in 2d and 3d, mutable, const
     and weak alike. The outline of a lanelet runs along the left bound and back along the right bound and does not depend on
     the direction of the view.''',
     ['inputs', 'histories'], 'all lanelets, directions, bounds (shared or inverted), and all sequences of bound replacements',
     'The tests use a few hand written lanelets; the guarantee is over every combination of view direction, bound direction and history of replacements.',
     ['lanelet2_core/include/lanelet2_core/primitives/Lanelet.h', 'lanelet2_core/src/Lanelet.cpp'],
     [('bound selection and inversion in the const and mutable lanelet', 'primitives/Lanelet.h'), ('polygon of the lanelet data', 'src/Lanelet.cpp')],
     [('left and right bound, inverted flag', 'bounds of the shared data and direction of one view', 'primitives/Lanelet.h')],
     ['leftBound/rightBound (2d, 3d), polygon2d/3d, equality'])
prop('C03', 'A lanelet centerline always matches its current bounds or custom line',
     '''Whatever sequence of centerline queries, bound replacements and cache resets went before, through the lanelet or its
     inverted view, the centerline a lanelet reports is the one a new lanelet with the same bounds would report, unless a
     centerline was assigned, which is then reported until another one is assigned. The inverted lanelet reports the reversed
     centerline, and a lanelet says that it has a custom centerline exactly if one was assigned. A computed centerline starts and
     ends at the midpoints of the ends of the bounds and its points are midpoints of bound points in the order of the bounds.''',
     ['histories', 'inputs'], 'all sequences of operations on all lanelets',
     'Tests look at single updates of one lanelet; stale caches need a particular order of queries and updates through particular views.',
     ['lanelet2_core/src/Lanelet.cpp', 'lanelet2_core/include/lanelet2_core/primitives/Lanelet.h'],
     [('invalidation in the bound setters and resetCache', 'src/Lanelet.cpp'), ('lazy computation in centerline()', 'src/Lanelet.cpp')],
     [('cached centerline', 'computed or custom centerline of the shared lanelet data', 'src/Lanelet.cpp')],
     ['centerline, centerline2d, centerline3d, hasCustomCenterline'],
     note='The search for the points of the centerline (r-tree queries) is an assumed contract and checked bounded.')
prop('C04', 'Attribute maps and values always agree with the texts they hold',
     '''An attribute map yields the same element whether it is looked up by name or by predefined key, after every sequence of
     insertions, assignments, erasures, copies, moves and clears, and such an operation changes only the attribute it names.
     Interpreting an attribute as bool, number, id or velocity depends on its current text only, however often and in whatever
     order it was interpreted before: an assigned text replaces all earlier interpretations, values assigned as a typed value
     read back as assigned (up to the precision of their text), a speed without unit is in km/h and otherwise in its unit (km/h, m/s, mph), and a text that can not
     be interpreted yields no value. A primitive reports the attribute or, if it is missing or can not be interpreted, the
     default.''',
     ['histories', 'inputs'], 'all names, keys, texts and values, and all histories of one map or attribute',
     'Tests look up a few fixed attributes; a stale interpretation or stale key index needs a particular order of operations.',
     ['lanelet2_core/include/lanelet2_core/Attribute.h', 'lanelet2_core/src/Attribute.cpp',
      'lanelet2_core/include/lanelet2_core/utility/HybridMap.h'],
     [('key index of the hybrid map', 'utility/HybridMap.h'), ('cache of the last interpretation', 'src/Attribute.cpp'),
      ('attributeOr', 'primitives/Primitive.h')],
     [('map and key index', 'the elements by name and the index from keys to elements', 'utility/HybridMap.h'),
      ('text and cache', 'the text of an attribute and the last value it was interpreted as', 'Attribute.h')],
     ['find, at, operator[], asBool, asInt, asId, asDouble, asVelocity, attributeOr'],
     note='Texts with units are interpreted with std::regex and strtod, which are outside the reach of the verifier: bounded check.')
prop('C05', 'Traffic rules decide passability and one way from the given attributes',
     '''Whether a participant may pass a lanelet along its direction, or an area, is decided by the first of these that applies:
     a regulatory element that restricts passing; the "participant" overrides (the one that names the participant or a group
     it belongs to decides with its value; if there are only overrides for others the participant is excluded); the subtype
     (a missing one counts as road for vehicles). A lanelet is one way according to its one_way attribute, otherwise its "one_way:" override for
     the participant, otherwise unless the participant is a pedestrian, and against its direction it can be passed exactly if it
     can be passed along it and is not one way. Passing from a lanelet to a lanelet is possible exactly if the second follows the first and both are
     passable, and from or to an area only if both are passable. The German rules follow this, with areas closed to vehicles.''',
     ['inputs'], 'all lanelets, areas, attributes, participants and pairs of primitives',
     'Tests check a handful of tagged lanelets for three participants; overrides, subtypes, groups and regulatory elements combine freely.',
     ['lanelet2_traffic_rules/src/GenericTrafficRules.cpp', 'lanelet2_traffic_rules/src/GermanTrafficRules.cpp'],
     [('canPass', 'GenericTrafficRules.cpp'), ('override lookup', 'GenericTrafficRules.cpp'), ('isOneWay', 'GenericTrafficRules.cpp')],
     (), ['canPass, isOneWay'])
prop('C06', 'Lane changes and area crossings follow the marking of the shared boundary',
     '''Whether a boundary may be crossed to its left or right is decided, in this order, by its lane_change attribute (both
     directions), its lane_change:left and lane_change:right attributes (if both are given), and its marking: dashed lines may
     be crossed by vehicles and bicycles both ways, dashed_solid only to the right, solid_dashed only to the left, low
     curbstones by pedestrians and bicycles, every other boundary not at all. Left and right swap for the inverted boundary. A lane change from a lanelet to
     another is allowed exactly if both are passable, they share a bound in the same direction as left/right neighbors and the bound may be crossed
     towards the neighbor; entering or leaving an area follows the same rule for the shared bound, where virtual bounds may
     always be crossed and primitives without shared bound or end are never reached.''',
     ['inputs'], 'all boundaries, attributes, participants and all pairs of lanelets and areas',
     'Tests check a few line types on a hand made map; markings, overrides, directions and participants combine freely.',
     ['lanelet2_traffic_rules/src/GenericTrafficRules.cpp', 'lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h',
      'lanelet2_core/include/lanelet2_core/geometry/impl/Area.h'],
     [('laneChangeType', 'GenericTrafficRules.cpp'), ('canChangeLane', 'GenericTrafficRules.cpp'),
      ('determineCommonLine', 'geometry/impl/Area.h')],
     (), ['canChangeLane, canPass with areas'],
     note='canPass and laneChangeType are used through their own contracts (modular) where primitives are compared.')
prop('C07', 'Speed limits follow signs, attributes and country tables, in this order',
     '''The speed limit of a lanelet or area for a participant is decided by the first of these that applies: a regulatory
     element that limits the speed for the participant; if there is any speed_limit attribute, the "speed_limit:" override for
     the participant, otherwise the plain speed_limit attribute, mandatory unless the speed_limit_mandatory attribute for the
     participant says otherwise; the limit of the country for the participant, which for vehicles depends on location (urban if missing) and subtype
     (road if missing). In Germany, vehicles follow the velocity of the first speed limit sign of the lanelet, and 50/100 km/h
     apply on urban/nonurban roads, 130 km/h as recommendation on highways, 7 km/h on play streets, 5 km/h to pedestrians and 20 km/h to
     bicycles. Rules are dynamic exactly if some regulatory element is marked as dynamic.''',
     ['inputs'], 'all lanelets, areas, attributes, limits of countries and participants',
     'Tests check a handful of tagged lanelets; overrides, signs, subtypes, locations and participants combine freely.',
     ['lanelet2_traffic_rules/src/GenericTrafficRules.cpp', 'lanelet2_traffic_rules/src/GermanTrafficRules.cpp'],
     [('speedLimit, getSpeedLimitFromType', 'GenericTrafficRules.cpp'), ('trafficSignToVelocity, germanSpeedLimits', 'GermanTrafficRules.cpp')],
     (), ['speedLimit, hasDynamicRules'],
     note='Interpretations of attributes are used through their contract (C04). The table of German signs is checked bounded.')
prop('C11', 'Neighborhood of lanelets and areas is symmetric and matches shared bounds',
     '''A lanelet is left of another one exactly if its right bound is, in the same direction, the left bound of the other one;
     right of is the converse, and both relations swap if both lanelets are inverted. A lanelet follows another one exactly if
     both have points and its bounds start at the points at which the bounds of the other one end; inverting both exchanges
     successor and predecessor. An area is left (right) of a lanelet exactly if one of its outer bounds is the reversed left bound
     (the right bound) of the lanelet, and follows it exactly if one joins the ends of the bounds. The common line reported for two
     lanelets, a lanelet and an area, or two areas exists exactly in these cases and is the shared line in the direction
     of the primitive it is documented to belong to. Areas are adjacent exactly if they share a segment in opposite directions.''',
     ['inputs'], 'all pairs of lanelets and areas, with any sharing, direction and number of bounds',
     'Tests check a few fixed pairs; direction of views, shared lines and number of bounds combine freely.',
     ['lanelet2_core/include/lanelet2_core/geometry/impl/Lanelet.h', 'lanelet2_core/include/lanelet2_core/geometry/impl/Area.h'],
     [('leftOf, rightOf, follows', 'geometry/impl/Lanelet.h, geometry/impl/Area.h'), ('determineCommonLine*', 'geometry/impl/Area.h')],
     (), ['leftOf, rightOf, follows, adjacent, determineCommonLine and variants'],
     note='adjacent (compound polygons) is checked bounded.')
prop('C12', 'Compound linestrings, lanelet sequences and outlines reflect their parts',
     '''A compound linestring or polygon has the linestrings it was made of, in the given order, and its points are those of
     its linestrings in order, where a point that equals its predecessor is not repeated and linestrings without points do not matter;
     size, access by index, segments and iteration in both directions agree on that. Its inverse has the inverted linestrings in reverse order and the
     points in reverse order; 2d, hybrid and polygon views keep linestrings and direction. The bounds of a lanelet sequence are the
     compounds of the bounds of its lanelets, swap and invert if the sequence is inverted, and its outline runs along the left bound and back
     along the right bound. The outline and the holes of an area always consist of its current bounds, after any history of changes.''',
     ['inputs', 'histories'], 'all lists of linestrings (with any shared points, empty linestrings and directions), lanelets and bounds',
     'Tests check a few fixed compounds; where points repeat, which linestrings are empty, and directions combine freely.',
     ['lanelet2_core/include/lanelet2_core/utility/CompoundIterator.h', 'lanelet2_core/include/lanelet2_core/primitives/CompoundLineString.h', 'lanelet2_core/src/LaneletSequence.cpp', 'lanelet2_core/include/lanelet2_core/primitives/Area.h'],
     [('UniqueCompoundIterator', 'CompoundIterator.h'), ('CompoundLineStringImpl', 'CompoundLineString.h'), ('LaneletSequenceData', 'LaneletSequence.cpp'), ('AreaData::resetCache', 'Area.h')],
     (), ['lineStrings, ids, size, points, segments, bounds, polygon3d, outerBoundPolygon, innerBoundPolygons'],
     note='Steps of the iteration are proved case by case; complete traversals, compounds of compounds and holes are checked bounded.')
prop('C17', 'Lanelet paths, remaining lanes and remaining routes are suffixes of the path',
     '''A lanelet path consists of the lanelets it was made of, in order. Its remaining lane from a position (or a lanelet
     of the path) is the longest run of successive lanelets of the path from there on in which each one directly follows the one before;
     it is empty for a lanelet that is not on the path. The remaining shortest path of a route from a lanelet on it consists
     of the lanelets of the shortest path from the first occurrence of this lanelet up to the destination; if the shortest path of more than one
     lanelet ends where it starts, it goes round instead and consists of each lanelet of the path once, starting with the lanelet. It is empty if
     the lanelet is not on the shortest path.''',
     ['inputs'], 'all lists of lanelets (with any repetitions and directions) and positions in them',
     'Tests check a few fixed routes; length of the path, position, repetitions and gaps between lanelets combine freely.',
     ['lanelet2_routing/src/LaneletPath.cpp', 'lanelet2_routing/src/Route.cpp'],
     [('LaneletPath::getRemainingLane', 'LaneletPath.cpp'), ('Route::remainingShortestPath', 'Route.cpp')],
     (), ['LaneletPath, getRemainingLane, remainingShortestPath'],
     note='Whether a lanelet follows another one is used through its contract (C11).')
prop('C15', 'Routing graph queries show exactly the edges of their cost and relation',
     '''A view of the routing graph for a routing cost exists exactly if the cost is known (otherwise the request is refused) and
     shows exactly the edges of this cost with the relations of the view (the one without conflicts: every relation but conflicting).
     Adding an edge with infinite cost changes nothing, one with negative cost is refused, any other joins its two vertices with its
     cost and relation; an added vertex can be found by its lanelet or area and leaves others alone. A left, right or adjacent neighbour is the
     lanelet where the first edge of this relation and cost leads; following, previous and conflicting elements are exactly those at the other
     end of such edges of the first cost, in order; the relation of two lanelets is that of the first edge between them, unless it is conflicting and
     conflicts are not asked for. The distance (travel time) cost of going on is the mean of both lengths (times at positive finite speed
     limits; infinite ones are refused); a lane change has its fixed cost, or an infinite one if the lanelets are shorter (faster passed) than
     a positive minimum. Negative lane change costs are refused.''',
     ['inputs'], 'all graphs, edges, cost ids, relations, lanelets, areas, lengths, speed limits and cost parameters',
     'Tests query one fixed test map; combinations of relations, cost ids, several edges between lanelets, and costs are not sampled.',
     ['lanelet2_routing/include/lanelet2_routing/internal/Graph.h', 'lanelet2_routing/src/RoutingGraph.cpp', 'lanelet2_routing/src/RoutingCost.cpp'],
     [('Graph::getFilteredGraph, EdgeCostFilter, addEdge, addVertex', 'internal/Graph.h'), ('left, right, following, previous, conflicting, routingRelation', 'RoutingGraph.cpp'), ('RoutingCostDistance, RoutingCostTravelTime', 'RoutingCost.cpp')],
     (), ['following, previous, left, right, adjacentLeft, adjacentRight, lefts, rights, besides, conflicting, routingRelation, getCostSucceeding, getCostLaneChange'],
     note='Lengths are used through the function that computes them. Chains of neighbours (lefts, rights, besides, leftRelations) are checked bounded.')
prop('C13', 'Projections keep points, are relative to their origin and refuse the rest',
     '''UTM coordinates of a point in the zone of the origin are those of the UTM grid, minus those of the origin if
     an offset is used, which puts the origin at 0, 0. A point of another zone or hemisphere is refused in strict mode; otherwise it gets its
     coordinates in the zone of the origin, or is refused if it has none there. Going back gives the point of the coordinates in
     this zone; strict mode refuses exactly the coordinates whose point is of another zone or hemisphere. Every refusal is a projection error
     of its direction. Local cartesian and geocentric coordinates are those of WGS84, in the tangential frame of the origin or earth centred.
     For both mercator projections x is proportional to the longitude (the spherical one is scaled by the cosine of the latitude of the origin), and y is
     that of the projection; the origin of the elliptical one only shifts coordinates and is itself at 0. Elevations are kept by
     UTM and mercator (relative to the origin for the elliptical one), and points survive going forward and back, up to rounding.''',
     ['inputs'], 'all origins, points, coordinates and modes',
     'Tests project a few points near one origin; other zones and hemispheres, modes, offsets and refusals combine freely.',
     ['lanelet2_projection/src/UTM.cpp', 'lanelet2_projection/src/LocalCartesian.cpp', 'lanelet2_projection/src/Geocentric.cpp', 'lanelet2_projection/include/lanelet2_projection/Mercator.h', 'lanelet2_io/include/lanelet2_io/Projection.h'],
     [('UtmProjector::forward, reverse', 'UTM.cpp'), ('Mercator', 'Mercator.h'), ('SphericalMercatorProjector', 'Projection.h')],
     (), ['Projector::forward, Projector::reverse'],
     note='GeographicLib and libm are trusted through contracts; round trips that depend on their numerics are checked bounded.')
