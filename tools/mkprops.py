#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Collision callbacks follow the life of a contact",
 "For every pair of touching shapes the callbacks come in the order begin (once, in the first step of the contact), preSolve (in every step in which they touch and the contact was not ignored), postSolve (in every step in which the contact was solved), separate (exactly once, in the first step they no longer touch, or when one of the shapes is removed). "
 "A begin callback that returns false, or Ignore called on the arbiter, silences preSolve and postSolve and the response until the shapes separate; a preSolve callback that returns false suppresses the response and postSolve for that step only. Sensors and pairs of two non-dynamic bodies never get a postSolve. While both bodies sleep a pair is quiet; what changed meanwhile is noticed in the first step after they wake.",
 ["histories", "programs"], "every history of steps, moves, additions, removals and wake-ups, and every combination of callback results",
 "The tests never install a collision handler; the guarantee ranges over histories of touching, ignoring, sleeping, waking and removal.",
 ["arbiter.go", "space.go", "collisionhandler.go"],
 [("narrow phase of a step", "space.go SpaceCollideShapesFunc"), ("end of contacts", "space.go SpaceArbiterSetFilter"), ("removal of a shape", "space.go UncacheArbiters / CachedArbitersFilter")],
 ["collision handler callbacks"], [("arbiter state", "first collision, normal, ignore, cached, invalidated", "arbiter.go state")])
prop("C02", "The right collision handler is called with the right arguments",
 "A pair handler registered for two collision types serves the pair in either order, its arbiter showing the shapes in the order of registration; its missing functions, and pairs without a pair handler, fall back to the wildcard handlers of both shapes' types, each called with its own type's shape first and both taking part in the result. Every callback receives the space and the UserData of the handler it belongs to, and asking for a handler again returns the one already registered.",
 ["programs", "histories"], "every set of pair and wildcard handlers, every subset of their functions, handlers registered between any two steps, and collision types changed at any time",
 "No test registers a handler; the combinations of pair and wildcard handlers, missing functions, shape order and swapped arbiters are not sampled at all.",
 ["space.go", "collisionhandler.go", "arbiter.go"],
 [("lookup", "space.go LookupHandler"), ("order of shapes", "arbiter.go Update swapped"), ("defaults", "collisionhandler.go / arbiter.go CallWildcard*")], ["callback arguments"])
prop("C03", "Every overlapping pair collides, and no other",
 "In every step a pair of shapes in the space is handed to its collision handlers if and only if the shapes overlap at the poses they have after integration, belong to different bodies of which at least one is an awake dynamic or a kinematic body, their filters accept each other (groups, categories and masks in both directions) and no constraint with collisions disabled joins their bodies. The answer does not depend on the kind or the parameters of the spatial index or on the history of insertions, removals and moves.",
 ["inputs", "histories", "configurations"], "all shapes, poses, filters, constraints, spatial indexes and histories",
 "The tests step two fixed scenes; completeness of an incrementally updated broad phase is a statement over all histories.",
 ["space.go", "bbtree.go", "spacehash.go", "spatialindex.go", "collision.go", "shape.go"],
 [("broad phase", "bbtree.go ReindexQuery, spacehash.go ReindexQuery"), ("rejection", "space.go QueryReject"), ("narrow phase", "collision.go Collide")], ["begin/preSolve/separate callbacks"])
prop("C04", "Contacts have the true depth and a separating unit normal",
 "Two shapes are reported in contact exactly when they overlap; the contact normal is a unit vector pointing from the first shape to the second, the deepest contact's distance is minus the true penetration depth (the length of the shortest translation that separates them), and translating one shape along the normal by that depth leaves them touching. The points of the deepest contact lie on the two surfaces, every contact's distance is the one between its points along the normal, and swapping the two shapes mirrors an answer that is unique.",
 ["inputs"], "all pairs of circles, thick segments and rounded convex polygons in all poses, including concentric, collinear and corner-to-corner arrangements",
 "No test looks at a contact's normal, depth or points; degenerate arrangements are measure-zero in any sampling that is not aimed at them.",
 ["collision.go", "shape.go"],
 [("GJK/EPA", "collision.go GJK, EPA, ClosestPoints"), ("clipping", "collision.go ContactPoints"), ("circle cases", "collision.go CircleToCircle, CircleToSegment, CircleToPoly")], ["ShapesCollide", "Arbiter.ContactPointSet"])
prop("C05", "Point and box queries are exact",
 "A point query on a shape gives the true signed distance to its surface, a nearest point on the surface and a unit gradient pointing away from the shape; the nearest-point query of a space returns the shape minimising that distance among those that are closer than the maximum, no sensors and accepted by the filter, or nothing when there is none. A box query visits exactly the shapes whose bounding box meets the box and whose filter accepts, each once, whatever the spatial index.",
 ["inputs", "configurations"], "all shapes, poses, query points, radii, boxes and filters, and all spatial indexes",
 "No test makes a point or a box query; the claim is over all inputs and both indexes.",
 ["space.go", "circle.go", "segment.go", "poly.go", "bbtree.go", "spacehash.go"],
 [("per shape", "circle.go/segment.go/poly.go PointQuery"), ("space", "space.go PointQueryNearest, BBQuery")], ["Shape.PointQuery", "Space.PointQueryNearest", "Space.BBQuery"])
prop("C06", "Segment queries hit what the segment hits",
 "A segment query with a radius reports exactly the shapes the swept circle hits and the filter accepts, each once; the reported fraction is the first moment of impact, the point lies on the shape's surface and, unless the circle overlaps the shape from the start (fraction 0), the normal is the unit surface normal there, facing the start. The first-hit query returns the hit with the smallest fraction among the shapes that are not sensors, or nothing.",
 ["inputs", "configurations"], "all shapes, poses, segments starting outside of the shapes, radii and filters, and all spatial indexes",
 "No test makes a segment query; traversal of an index by a thick ray must be right for every direction and cell layout.",
 ["space.go", "circle.go", "segment.go", "poly.go", "bbtree.go", "spacehash.go"],
 [("per shape", "SegmentQuery of circle.go/segment.go/poly.go"), ("traversal", "bbtree.go SegmentQuery, spacehash.go SegmentQuery")], ["Shape.SegmentQuery", "Space.SegmentQuery", "Space.SegmentQueryFirst"])
prop("C07", "A shape query finds every shape the probe touches",
 "Querying a space with a shape calls back once for every shape in the space, other than the probe itself, that overlaps the probe and is accepted by the filters, with the same contacts a collision of the two would have, and for no other shape. The result is true if and only if at least one of them is not a sensor (the probe not being one either).",
 ["inputs", "configurations"], "all probes, scenes, filters, sensors and spatial indexes",
 "One test makes one shape query of two boxes.", ["space.go", "shape.go", "collision.go"],
 [("query", "space.go ShapeQuery")], ["Space.ShapeQuery"])
prop("C08", "A space contains what was added and not removed",
 "A body, shape or constraint is in a space from its addition to its removal and at no other time, regardless of steps, sleeping, changes of type or of the spatial index in between; the iterations over bodies and shapes of the space and over shapes, constraints and arbiters of a body visit each member exactly once, even when the callback wakes bodies up or removes the visited item where that is allowed.",
 ["histories", "programs"], "all interleavings of additions, removals, re-additions, steps, sleeping and iteration",
 "The tests add a handful of objects once; the claim is about all histories, including re-adding and iterating while things change.",
 ["space.go", "body.go", "hashset.go", "bbtree.go", "spacehash.go"],
 [("membership", "space.go Add*/Remove*/Contains*"), ("iteration", "space.go Each*, body.go Each*")], ["Contains*", "Each*"])
prop("C09", "Post-step callbacks run once, at the end of the locked section",
 "A function registered with AddPostStepCallback during a step or a query runs exactly once, in the order of registration, after the outermost locked operation has finished and before it returns; a second registration under a key that is already pending is refused and reported so. When it runs the space is unlocked, so that it may add and remove anything, step, and register further callbacks, which run in the same way.",
 ["histories", "programs"], "all nestings of steps, iterations, queries, removals, callbacks and registrations",
 "No test registers a post-step callback; the nesting of locked sections and registrations from within callbacks is unbounded.",
 ["space.go"], [("lock counter", "space.go Lock/Unlock"), ("queue", "space.go AddPostStepCallback, Unlock")], ["AddPostStepCallback"])
prop("C10", "Bodies sleep as whole idle components, and only then",
 "When sleeping is enabled, the dynamic bodies that are connected by contacts or constraints fall asleep together, in the step in which every one of them has been below the idle speed for at least the threshold time; a body that moves, touches or is attached to a kinematic body, or is connected to one that does not qualify, stays awake. A sleeping body keeps its pose and velocity, its contacts survive without any separate callback, and with sleeping disabled nothing ever sleeps.",
 ["histories"], "all scenes, velocities, thresholds and histories",
 "No test enables sleeping; the component structure changes with every contact.",
 ["space.go", "body.go"], [("components", "space.go ProcessComponents, FloodFillComponent, ComponentActive"), ("deactivation", "space.go Deactivate")], ["Body.IsSleeping", "Body.IdleTime"])
prop("C11", "Whatever affects a sleeping body wakes its whole component",
 "Any call that can change how a sleeping body moves - setting its pose, velocity, mass, force or torque, applying forces or impulses, changing the material, filter, collision type, sensor flag or mass of one of its shapes, changing one of its constraints, adding or removing shapes or constraints on it, removing a body, shape or constraint it rests on or is attached to, changing gravity or a type - or a contact with an awake body wakes it together with every body of its component. Woken bodies take part in the same step or the next exactly as if they had never slept, and their contacts continue without a second begin.",
 ["histories", "programs"], "all mutators, at every point where they may be called, including inside callbacks of a running step",
 "No test puts a body to sleep.", ["body.go", "space.go", "shape.go", "constraint.go"],
 [("waking", "body.go Activate, ActivateStatic"), ("restoring", "space.go Activate, Unlock")], ["Body.IsSleeping", "callbacks"])
prop("C12", "A body's mass properties are those of its shapes",
 "A dynamic body whose shapes have mass has the sum of the shapes' masses, their common centre of gravity and the moment of inertia about it, after any sequence of adding and removing shapes and changing their mass or density; shapes without mass leave the values set by the user alone, and pose and velocity stay what they were. Areas, centroids and moments of circles, segments, boxes and counter-clockwise convex polygons agree with their exact integrals wherever the shape lies and whichever vertex comes first (a rounding counts for the area of polygons and segments and, as a box, for the moment of segments; not for that of polygons).",
 ["inputs", "histories"], "all shapes, masses, densities and orders of operations",
 "The tests check a few fixed masses of circles and boxes.", ["body.go", "shape.go", "circle.go", "segment.go", "poly.go", "everything.go"],
 [("accumulation", "body.go AccumulateMassFromShapes"), ("formulas", "everything.go MomentFor*, AreaFor*, CentroidForPoly")], ["Body.Mass", "Body.Moment", "Body.CenterOfGravity"])
prop("C13", "Changing a body's type leaves a consistent world",
 "A body can change between dynamic, kinematic and static at any time outside of a step, in or out of a space: afterwards it behaves in every way as if it had been created with the new type - its mass, velocity, integration, participation in collisions and sleep - and its shapes, constraints and contacts stay in the space. Bodies that were asleep because of it are awake.",
 ["histories"], "all sequences of type changes interleaved with steps, sleeping, additions and removals",
 "No test changes the type of a body in a space.", ["body.go", "space.go"],
 [("change", "body.go SetType")], ["Body.GetType", "Contains*", "callbacks"])
prop("C14", "Free motion is integrated exactly as documented",
 "In a step of length dt an awake dynamic body's velocity becomes damping^dt times the old one plus (gravity + force/mass) times dt (angular velocity likewise with torque/moment), its pose advances by the velocity times dt, and its forces are cleared; kinematic bodies only advance, static and sleeping bodies do not move; custom update functions are called once per step in place of the defaults. World and local coordinates, rotations and velocities at points are consistent with the pose, and a step of length zero changes nothing.",
 ["inputs", "histories"], "all velocities, forces, time steps, damping values and histories of applied forces and impulses",
 "One test steps a falling ball.", ["body.go", "space.go"],
 [("integration", "body.go BodyUpdateVelocity, BodyUpdatePosition"), ("order", "space.go Step")], ["Body.Position", "Body.Velocity", "Body.Angle"])
prop("C15", "Internal forces conserve momentum",
 "Contacts and constraints between dynamic bodies exert equal and opposite impulses: without gravity, damping and static or kinematic partners a step leaves the total linear momentum of the bodies unchanged, and their angular momentum as far as it acts at common points. New contacts alone never increase the kinetic energy of frictionless, inelastic bodies, and kinematic and static bodies are never moved by an impulse.",
 ["inputs", "histories"], "all scenes and time steps",
 "No test adds up momenta.", ["arbiter.go", "constraint.go", "pinjoint.go", "slidejoint.go", "pivotjoint.go", "groovejoint.go", "dampedspring.go", "dampedrotaryspring.go", "rotarylimitjoint.go", "ratchetjoint.go", "gearjoint.go", "simplemotor.go"],
 [("impulses", "constraint.go apply_impulses, arbiter.go ApplyImpulse")], ["Body.Velocity", "Arbiter.TotalImpulse"])
prop("C16", "Contact response follows elasticity, friction and surface velocity",
 "Two bodies on which nothing acts but one contact between them separate along the normal with the product of the elasticities times the approach speed, without friction keep their tangential velocity, with friction receive a tangential impulse of at most the product of the frictions times the normal impulse, opposing the relative surface motion; normal impulses never pull, and what an earlier contact of the two left behind plays no part. Overlap beyond the slop shrinks at the rate the collision bias sets, without adding velocity, and overlap within the slop is left alone. The impulses an arbiter reports are those its bodies received, also when the time step changes, in the order of bodies a handler sees. Contacts that a PreSolve callback puts in place of those found, as many with another normal and other points, are the ones that are solved.",
 ["inputs"], "all masses, velocities, elasticities, frictions, surface velocities and contact normals",
 "The tests drop one ball.", ["arbiter.go"],
 [("restitution and friction", "arbiter.go PreStep, ApplyImpulse, Update")], ["Body.Velocity", "Arbiter.TotalImpulse", "TotalKE"])
prop("C17", "Joints enforce their constraint within their maximum force",
 "After enough iterations the relative motion of two jointed bodies satisfies the joint's velocity condition - fixed distance, distance range, common point, point on a groove of some length, angle range, ratchet clicks, gear ratio, motor rate, spring law - and position errors shrink at the rate the error bias and maximum bias allow; a slack joint exerts nothing. Except for springs the impulse of a joint never exceeds its maximum force times dt, the impulse reported is the one applied, and setters take effect from the next step on. The functions set to run before and after solving are called once per step.",
 ["inputs", "histories"], "all joints, anchors, limits, masses and motions",
 "No test uses a joint.", ["pinjoint.go", "slidejoint.go", "pivotjoint.go", "groovejoint.go", "dampedspring.go", "dampedrotaryspring.go", "rotarylimitjoint.go", "ratchetjoint.go", "gearjoint.go", "simplemotor.go", "constraint.go"],
 [("joints", "PreStep/ApplyImpulse of each joint")], ["Body.Velocity", "Constraint.Class.GetImpulse"])
prop("C18", "A contact keeps its identity while it lasts",
 "A touching pair has one arbiter, which keeps its user data, its swapped order and its accumulated impulses from begin to separate, across sleeping and waking, and through a gap of fewer steps than the persistence; after the persistence has run out, or when one of the shapes has been removed, a new contact starts afresh. IsFirstContact is true exactly in the first step of a contact, and IsRemoval in a separate callback exactly when a shape is being removed.",
 ["histories"], "all histories of touching, separating, sleeping, removal",
 "No test looks at an arbiter.", ["arbiter.go", "space.go"],
 [("cache", "space.go cachedArbiters, SpaceArbiterSetFilter"), ("warm starting", "arbiter.go Update, ApplyCachedImpulse")], ["Arbiter.UserData", "Arbiter.IsFirstContact"])
prop("C19", "Simulations are reproducible and isolated from one another",
 "Performing the same operations on two spaces gives bit-identical poses, velocities, callbacks and query results, no matter what happens in other spaces before or in between, in the same or another goroutine. Stepping a space changes nothing in any other space.",
 ["histories", "schedules"], "all operation sequences, repeated in the same process, interleaved with other spaces",
 "Each test runs one space once.", ["space.go", "shape.go", "hashset.go", "spacehash.go", "bbtree.go"],
 [("identifiers and hashing", "space.go shapeIDCounter, hashset.go")], ["whole observable state"])
prop("C20", "Marching squares draws the boundary of the sampled region",
 "Marching a sampled field with hard or soft threshold emits line segments that together form closed loops or chains ending on the edge of the sampled box, separate every sample above the threshold from every sample below it, pass each cell edge exactly where the samples on it differ (at its middle for hard, at the interpolated crossing for soft marching) and keep the inside on the same side; every sample point is sampled at the right coordinates and nothing else is emitted.",
 ["inputs"], "all fields, thresholds and grid sizes",
 "No test marches.", ["march.go"], [("cells", "march.go MarchSoft, MarchHard, MarchCells")], ["segments passed to the callback", "PolyLineSet"])
prop("C21", "Polylines are joined and simplified within tolerance",
 "Collecting segments into a polyline set joins segments that share end points into one polyline without losing, inventing or reordering any edge. Simplifying the curves of a polyline keeps a subsequence of its vertices with the same ends, closed if the input was closed (then starting at its leftmost vertex), such that every dropped vertex is within the tolerance of the simplified line; simplifying its vertexes drops exactly those at which the simplified line so far turns by no more than the tolerance, including the seam of a closed line.",
 ["inputs", "histories"], "all sequences of collected segments, all polylines and tolerances",
 "No test builds a polyline.", ["polyline.go"],
 [("joining", "polyline.go PolyLineCollectSegment"), ("simplification", "polyline.go SimplifyCurves, SimplifyVertexes")], ["PolyLineSet", "PolyLine.Verts"])
prop("C22", "The convex hull is the smallest convex polygon around the points",
 "With tolerance zero the convex hull of a set of points is a convex polygon of distinct input points in counter-clockwise order, starting at the leftmost one (whose index is reported), that contains every input point. With a positive tolerance its vertices are still points of the exact hull, and a point is left out only when no vertex it would add lies beyond the edge replacing it by more than the tolerance. A polygon shape made from transformed points that are not all on a line has the outline of their hull.",
 ["inputs"], "all point sets including duplicates, collinear points and every order",
 "No test computes a hull.", ["poly.go"], [("quickhull", "poly.go ConvexHull, QHullReduce, QHullPartition")], ["ConvexHull", "NewPolyShape"])
prop("C23", "Drawing a space shows all of it",
 "Drawing a space issues exactly one drawing call per shape with its world geometry, those that show the anchors and connections of each constraint of the awake part, and one per contact point solved in the last step, as selected by the drawer's flags, with the colours the drawer chooses, and changes nothing.",
 ["histories", "configurations"], "all scenes, states and flags",
 "No test draws.", ["draw.go"], [("drawing", "draw.go DrawSpace, DrawShape, DrawConstraint")], ["Drawer"])
prop("C24", "Bodies list exactly their current contacts",
 "After every step the arbiters listed by a body are exactly those of its pairs that were solved in that step (for a sleeping body: in the last step before it fell asleep), each once, and listed by both bodies with that body's own shape first.",
 ["histories"], "all histories of contacts, sleeping and removal",
 "No test enumerates arbiters.", ["body.go", "arbiter.go", "space.go"],
 [("contact graph", "space.go ProcessComponents, body.go PushArbiter, arbiter.go Unthread")], ["Body.EachArbiter"])
prop("C25", "Vectors, boxes and transforms compute what their names say",
 "The vector operations (sums, products, rotation, projection, length, normalising, angles, clamping, interpolation along lines and arcs, closest point of a segment, also of one without length) answer as in plane geometry, whatever the scale. Bounding boxes contain, intersect, merge, expand, clamp, wrap and are hit by segments as closed rectangles. Transforms map points and vectors by their matrix, compose and invert accordingly, and the box of a transformed box is the smallest around its corners. Results are finite numbers wherever the question has an answer.",
 ["inputs"], "all finite vectors, boxes, transforms and fractions",
 "No test calls most of them; a few samples would not meet the boundary cases.", ["vector.go", "bb.go", "transform.go"],
 [("vectors", "vector.go"), ("boxes", "bb.go"), ("transforms", "transform.go")], ["Vector", "BB", "Transform"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
