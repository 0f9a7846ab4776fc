"""One entry per property: (id, title, statement, over, quantifier text, why tests cannot, files, mechanism, bounds note)"""
S = 'src/pyrusgeom/'
P = []


def prop(id, title, statement, text, why, files, mech, note, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why,
                  files=[S + f for f in files], mech=[dict(name=a, where=S + b) for a, b in mech], note=note))


prop('C01', 'Every angle is held in one normal form, through all angle arithmetic',
     'However an angle object is built or changed (from a number of degrees, another angle, +, -, *, /, //, negation, reversal, in-place forms, or several of these in sequence), its degree lies in (-180, 180] and differs from the mathematically exact result by a whole number of turns, so each heading has exactly one spelling. '
     'Operands of non-in-place operators are left unchanged, copies are independent, and the radian, absolute, normalised and float readings are those of the stored degree.',
     'all real degree values (several turns either way), all operand kinds, operation sequences of length 2',
     'tests sample a few dozen degrees; wrap-around errors sit at single values (exact multiples of 180) or after a second operation',
     ['angle_deg.py'], [('AngleDeg normalisation and operators', 'angle_deg.py')],
     'degree inputs bounded to a few turns (the normalisation loop is unrolled at most 6 times)', ('inputs', 'histories'))
prop('C02', 'Left/right order, arc membership and equality of angles follow the circle',
     'An angle is left (right) of another exactly when the shorter turn from it to the other is clockwise (anticlockwise), with the equal-variants adding only equality; it is within two bounds exactly when it lies on the arc swept from the left bound to the right bound in the increasing-degree direction, for angle objects as well as plain numbers in any number of turns. '
     'Two angles are equal exactly when their degrees agree to 1e-6, and equality is reflexive and symmetric with != its negation.',
     'all pairs and triples of headings, including bounds that wrap past 180 and numbers outside (-180, 180]',
     'tests use a handful of angle triples; wrap-around and boundary triples form a continuum',
     ['angle_deg.py'], [('is_left_of, is_right_of, is_within, __eq__', 'angle_deg.py')],
     'plain-number arguments within two turns')
prop('C03', 'The bisecting angle halves the arc between its two arguments',
     'The bisect of two headings is the heading in the middle of the arc swept from the second to the first in the increasing-degree direction (30 and 0 give 15, 0 and 30 give -165), in normal form; exchanging the two arguments gives the opposite heading. '
     'It takes angle objects and numbers alike and leaves its arguments unchanged.',
     'all pairs of distinct headings',
     'tests sample a few pairs; the wrong half is taken only for pairs that wrap',
     ['angle_deg.py'], [('AngleDeg.bisect', 'angle_deg.py')], 'number arguments within two turns')
prop('C04', 'Degree-based trigonometry agrees with the mathematical functions',
     'Degree/radian conversion, sine, cosine and tangent in degrees are the mathematical functions of the angle. '
     'The inverse functions return the unique angle in their range whose sine, cosine, tangent or direction is the argument; arcsine and arccosine clamp arguments beyond [-1, 1], and the two-argument arctangent returns 0 for vectors with both coordinates below 1e-6 in absolute value.',
     'all real arguments; both signs, all quadrants, clamped and unclamped arguments',
     'tests compare at a few angles',
     ['angle_deg.py'], [('cos_deg, sin_deg, tan_deg, acos_deg, asin_deg, atan_deg, atan2_deg', 'angle_deg.py')],
     'trigonometric functions are uninterpreted up to the axioms in DESIGN.md section 2')
prop('C05', 'Vector arithmetic is componentwise and leaves its operands alone',
     'Addition, subtraction, scaling, division, negation, absolute value, single-coordinate updates, inner and outer product compute the componentwise mathematical result for all vectors and numbers, satisfy the vector space laws, and also hold when one object is both operands. '
     'Operators never change their operands; in-place forms change only the receiver and leave it holding the result.',
     'all vectors and scalars, integer or float, aliased or not',
     'tests use a few concrete vectors, rarely aliased operands',
     ['vector_2d.py'], [('Vector2D operators', 'vector_2d.py')], 'none beyond exact arithmetic')
prop('C06', 'Length, distance, direction, polar form and rotation of vectors agree',
     'Length and distance are the Euclidean ones (non-negative, symmetric, triangle inequality); the direction of a vector and its polar form are inverse to each other, the direction of a vector with both coordinates below 1e-6 being 0; rotation by an angle turns a vector by exactly that angle, keeps lengths and adds up. '
     'Setting the length keeps the line and takes the sense of the sign and leaves vectors shorter than 1e-6 alone; setting the direction keeps the length; the copying variants leave the original unchanged.',
     'all vectors, lengths, angles',
     'tests sample axis-aligned and 45 degree cases',
     ['vector_2d.py', 'angle_deg.py'], [('r, r2, th, dist, dist2, rotate, set_polar, set_length, set_dir', 'vector_2d.py')],
     'lengths handled as algebraic numbers; trigonometry through the axioms of DESIGN.md section 2')
prop('C07', 'Vectors behave as values: construction, copy, validity, equality, hashing',
     'A vector built from coordinates, keywords or another vector has exactly these coordinates, and malformed arguments are rejected. '
     'A copy carries coordinates and validity and is independent of its source, and a vector declared invalid stays invalid until validated while other vectors are not affected. '
     'Two vectors are equal exactly when both coordinates are equal (to 1e-6 for weak equality), never equal to other kinds of objects, and equal vectors have equal hashes.',
     'all coordinates, copy forms and validity histories',
     'tests look at single objects; aliasing needs a write after a copy',
     ['vector_2d.py'], [('Vector2D.__init__, copy, set_vector, invalid, __eq__, __hash__', 'vector_2d.py')], 'none beyond exact arithmetic', ('inputs', 'histories'))
prop('C08', 'A line contains exactly what it was built from',
     'A line built from two points passes through both and is degenerate only if they coincide; built from a point and an angle it passes through the point in that direction; built from coefficients it keeps them; malformed argument combinations are rejected. '
     'Solving the line for x or y gives a point on the line, or the documented error value when the line has no such unique point.',
     'all points, angles and coefficients',
     'tests use a few lines with small integers',
     ['line_2d.py'], [('Line2D construction, get_x, get_y', 'line_2d.py')], 'coefficients between 0.999e-6 and 1.001e-6 (the degeneracy threshold) are left open')
prop('C09', 'Distance, projection, perpendicular and bisectors of lines are Euclidean',
     'The distance from a point to a line is attained by its projection, which is the foot of the perpendicular, and no point of the line is nearer. '
     'The perpendicular through a point passes it at a right angle; the perpendicular bisector of two points is exactly the set of points equally far from both; the angle bisector at a point halves the two directions.',
     'all lines, points and angles',
     'tests use a few concrete lines',
     ['line_2d.py'], [('dist, dist2, projection, perpendicular, perpendicular_bisector, angle_bisector', 'line_2d.py')],
     'line normals of length at least 0.0015 (below, a threshold of 1e-6 on the squared length applies)')
prop('C10', 'Line intersection, parallelism and equality agree with geometry',
     'Two lines meet in a valid point lying on both unless their determinant is below 1e-6 in absolute value, in which case they are reported parallel and the intersection is invalid; the answer does not depend on the order of the lines. '
     'Two lines are equal exactly when they are the same set of points, whatever the scaling of their coefficients.',
     'all pairs of lines, including near-parallel ones',
     'tests use a few concrete pairs',
     ['line_2d.py'], [('intersection, is_parallel, __eq__', 'line_2d.py')],
     'determinants within 0.1% of the threshold are left open; inequality for lines that differ by more than a margin')
prop('C11', 'A ray is the half-line from its origin in its direction',
     'A ray keeps the origin and direction it was given (or points from the first point to the second), hands out copies, and its line runs through its origin in its direction; its own origin lies on the ray, and a point is in the right direction exactly when its bearing from the origin differs from the direction by less than the threshold. '
     'Intersecting a ray with a line or ray yields the common point when it lies ahead and an invalid point when it lies behind or the two are parallel; rays are equal exactly when origin and direction are.',
     'all origins, directions, lines and crossing positions',
     'tests use a few concrete rays',
     ['ray_2d.py', 'line_2d.py'], [('Ray2D', 'ray_2d.py')], 'crossings at least 0.1 ahead or behind and not nearly parallel; threshold with a gap of 0.001 degrees')
prop('C12', 'A segment keeps its two end points',
     'A segment built or assigned from two points, four numbers, a point with length and direction, or nothing has exactly these end points, independent of the objects passed in and handed out; swapping, reversing and copying exchange or keep them. '
     'Length, direction, supporting line and perpendicular bisector are those of the two end points. Equality holds exactly for equal end points (to 1e-6 in the weak form), and a segment is valid exactly when its ends differ.',
     'all end points, construction forms and update sequences of two steps',
     'tests use a few concrete segments and never write through inputs',
     ['segment_2d.py'], [('Segment2D construction, swap, reverse, line, perpendicular_bisector, equality', 'segment_2d.py')], 'the 1e-6 thresholds with a 1% gap', ('inputs', 'histories'))
prop('C13', 'Nearest point, distance and farthest distance of segments are true extrema',
     'The nearest point of a segment to a given point lies on the segment and no other point of it is nearer; the distance to a point is the distance to that nearest point, the farthest distance is attained at an end and never exceeded, and the distance between two segments is 0 if they share a point and otherwise the smallest distance between a point of one and a point of the other. '
     'Degenerate segments behave as points; neither segments nor points are changed, and the returned point may be changed freely.',
     'all segments (degenerate included) and points; pairs of segments',
     'tests use a few concrete positions; the case split (before, beside, beyond, touching) is on a continuum',
     ['segment_2d.py'], [('nearest_point, dist, farthest_dist', 'segment_2d.py')],
     'segment pairs: both segments from a table of concrete shapes at symbolic relative position; sharing a point: fully symbolic')
prop('C14', 'Segments are reported to intersect exactly when they share a point',
     'Two segments are reported to intersect if and only if they have a common point, including touching ends and overlapping collinear segments; the variant that excepts end points reports exactly the proper crossings at an inner point of both. '
     'A segment is reported to meet a line if and only if its ends are not strictly on one side.',
     'all pairs of segments and all segments with lines',
     'tests use a few concrete pairs; touching and collinear configurations have measure zero',
     ['segment_2d.py', 'triangle_2d.py'], [('exist_intersection, exist_intersection_except_endpoint', 'segment_2d.py')],
     'disjointness is given by a separating line (complete for segments); proper crossing margin 1e-3')
prop('C15', 'Intersection points and membership tests of segments are exact',
     'The intersection of a segment with a segment or line is the common point when it exists (an end point only when end points are allowed, with lines always) and invalid when the segments miss each other or are parallel. '
     'Projecting a point gives the foot of the perpendicular when it falls on the segment, else an invalid point; a point is on a segment exactly when it lies between the ends on the supporting line (to 1e-6 in the weak form), and the box test accepts exactly points in the bounding box.',
     'all segments, lines and points',
     'tests use a few concrete positions',
     ['segment_2d.py'], [('intersection, projection, contains, on_segment, on_segment_weakly', 'segment_2d.py')],
     'segments from 2e-6 long (crossing angle bounded away from parallel, miss distance at least 1e-3)')
prop('C16', 'Triangle construction, area, orientation and containment are exact',
     'A triangle keeps the three corners it was built or assigned from, independent of the objects passed in or handed out, and is valid exactly when its corners are valid and pairwise different. '
     'Area and (double) signed area are those of the corners, it is counter-clockwise exactly when the signed area is positive, and it contains exactly the points inside or on its outline, whatever the order of the corners.',
     'all corner triples and points',
     'tests use a few concrete triangles', ['triangle_2d.py'],
     [('Triangle2D construction, area, contains, ccw', 'triangle_2d.py')], 'containment for triangles that are not flat', ('inputs', 'histories'))
prop('C17', 'The four centres of a triangle have their defining properties',
     'The centroid is the mean of the corners, the circumcenter is equally far from all corners (invalid for flat triangles), the orthocenter lies on all three altitudes, and the incenter lies inside, equally far from all sides. '
     'Method and static forms agree and leave corners unchanged.',
     'all non-flat triangles', 'tests use a few concrete triangles; degenerate denominators (equal coordinates) are rarely hit',
     ['triangle_2d.py', 'line_2d.py'], [('centroid, circumcenter, orthocenter, incenter', 'triangle_2d.py')],
     'incenter: table of concrete triangle shapes at symbolic positions (distances to 1e-6), plus the bisector property for symbolic side lengths along the axes')
prop('C18', 'Triangle outlines intersect lines, segments and rays in the true points',
     'Intersecting a triangle with a line, a segment or a ray reports the number of distinct outline points met (0, 1 or 2) and these points, also through corners and along sides; for segments and rays only points lying on them count. '
     'The triangle and the other shape are left unchanged.',
     'positions of the cutting line, segment, ray relative to the triangle', 'tests hit generic positions only',
     ['triangle_2d.py', 'segment_2d.py', 'ray_2d.py'], [('Triangle2D.intersection', 'triangle_2d.py')],
     'triangle shapes from a table, symbolic size and translation, symbolic cut positions, all corner orders')
prop('C19', 'Circles: value, containment and intersection with lines',
     'A circle keeps centre and radius (a negative radius becomes 0) independent of the objects passed in, its area is pi r squared, and it contains exactly the points strictly nearer to the centre than the radius. '
     'A line meets it in two, one or no points as its distance from the centre is smaller than, equal to or larger than the radius, and the reported points are the common ones.',
     'all circles, points, lines', 'tests use a few concrete circles; tangency has measure zero',
     ['circle_2d.py'], [('Circle2D.contains, intersection(Line2D)', 'circle_2d.py')],
     'lines: horizontal, vertical and a family of slanted directions; distances bounded away from tangency except exact tangency')
prop('C20', 'Circles intersect segments, rays and circles in the true common points',
     'Intersecting a circle with a segment or ray reports exactly the common points of the circle with the supporting line that lie on the segment or ray; with a circle it reports the two, one or no common points according to the distance of the centres, and none for concentric circles. '
     'Nothing is changed.',
     'all relative positions of circle and segment, ray or circle', 'tests use a few concrete positions',
     ['circle_2d.py', 'segment_2d.py', 'ray_2d.py'], [('Circle2D.intersection', 'circle_2d.py')],
     'directions: axis-parallel and rational slanted directions, symbolic positions and radii')
prop('C21', 'Circumscribed circles pass through their three points',
     'The circle through three points has all three on its outline and is the empty circle when they are collinear. '
     'The containment test for the circumscribed circle accepts points inside by more than a small margin and rejects points on or outside it, and rejects everything for collinear points; arguments are unchanged.',
     'all point triples and query points', 'tests use a few triples',
     ['circle_2d.py', 'triangle_2d.py'], [('circumcircle, circum_circle_contains', 'circle_2d.py')],
     'containment: table of point triples at symbolic positions, all orders')
prop('C22', 'Rectangles and sizes hold the box they were given, through every setter',
     'A rectangle built or assigned from corner and size, numbers, two corners, centre or another rectangle covers exactly that box, negative lengths counting as absolute; all corner, edge, centre, size and area readers agree with it. '
     'Every move changes only position, every edge or corner setter changes only that side (collapsing or shifting as documented when sides would cross), every size setter keeps the top-left corner. '
     'Rectangles share no state with objects passed in or read out; edge lines run along the edges.',
     'all boxes, update arguments and construction forms', 'tests use a few concrete boxes and never write through inputs',
     ['rect_2d.py', 'size_2d.py'], [('Rect2D constructors, set_*, move_*', 'rect_2d.py'), ('Size2D', 'size_2d.py')], 'none beyond exact arithmetic', ('inputs', 'histories'))
prop('C23', 'Rectangle containment, intersection box and union box are exact',
     'A rectangle contains exactly the points of its box, edges included (widened by the margin in the tolerant variant). '
     'The intersected box of two rectangles consists of exactly the points in both and is invalid when the insides do not overlap; the united box is the smallest box covering both; both are invalid if an operand is, and neither changes or shares state with its operands.',
     'all pairs of boxes and all points', 'tests use a few concrete boxes',
     ['rect_2d.py'], [('contains, contains_almost, intersected, united', 'rect_2d.py')], 'none beyond exact arithmetic')
prop('C24', 'Rectangle outlines intersect lines, segments and rays in the true points',
     'Intersecting a rectangle with a line reports the distinct outline points it meets: two when it cuts (also through corners), one when it touches a corner, the two ends when it runs along an edge, none when it misses. '
     'With a segment or ray only points lying on it are reported; nothing is changed.',
     'all boxes, all lines, positions of segment and ray along it', 'tests hit generic positions only',
     ['rect_2d.py', 'segment_2d.py', 'ray_2d.py'], [('Rect2D.intersection', 'rect_2d.py')],
     'boxes of symbolic size (from 0.02) anywhere; slanted rays: a box of 10x6 scaled and moved symbolically')
prop('C25', 'Sectors: construction, containment, area, arc lengths and equality',
     'A sector built or assigned from a centre, two radii and two angles keeps them (a negative inner radius becomes 0, the outer radius is at least the inner one, angles in normal form), independent of the objects passed in or handed out by copying readers. '
     'It contains exactly the points between the radii on the arc from the left to the right angle in the increasing-degree direction, radii and arc ends included, also when the arc wraps past 180. '
     'Its area and arc lengths are those of that arc; two sectors are equal exactly when centre, radii and angles agree to 1e-6.',
     'all centres, radii, start and end angles, points', 'tests use few sectors; wrapping arcs and boundary points are a continuum',
     ['sector_2d.py', 'angle_deg.py'], [('Sector2D', 'sector_2d.py')],
     'radii up to 1000; containment leaves a gap of 0.001 degrees / 0.01% around the boundary, except along the four axis directions where it is exact', ('inputs', 'histories'))
prop('C26', 'Polygon containment is exact for every point',
     'A polygon (convex or not, listed in either direction from any vertex) contains exactly the points inside it or on its outline, and with on-outline points disallowed exactly the points strictly inside. '
     'A polygon without vertices contains nothing, one with a single vertex only that point, one with two vertices the segment between them (nothing when the outline is disallowed). The polygon and the point are unchanged.',
     'all query points (also level with vertices, on edges, at vertices), vertex orders', 'points level with vertices or on edges have measure zero; tests sample a few points',
     ['polygon_2d.py', 'segment_2d.py'], [('Polygon2D.contains', 'polygon_2d.py')],
     'table of simple polygons of 3 to 16 vertices and rings and stars of up to 50, scaled and moved symbolically; symbolic triangles with one horizontal side')
prop('C27', 'Polygon area, orientation, bounding box, distance and vertex list',
     'Signed area, area and orientation of a polygon are those given by its vertices (0 for fewer than three), and its bounding box is the smallest box covering them. '
     'The distance of a point is 0 inside when the polygon counts as a plane (the default), else the distance to the nearest outline point. '
     'The polygon keeps its own vertex list in order, and after vertices are added, assigned or moved every answer is that of a polygon built afresh.',
     'all vertex positions; all query points; histories query-change-query', 'tests use a few concrete polygons and never change a polygon between queries',
     ['polygon_2d.py'], [('area, double_signed_area, get_bounding_box, dist, add_vertex, assign, clear', 'polygon_2d.py')],
     'up to 13 symbolic vertices for area (40 with symbolic size and place), 4 for the box; distance for a table of polygons of symbolic size and place, up to 32 vertices', ('inputs', 'histories'))
prop('C28', 'Clipping a convex polygon with a rectangle gives their common part',
     'Clipping a convex polygon with a rectangle whose left, right and top (smallest y) sides may cut it returns exactly the common part of both: every corner lies in both, every common point is covered, nothing is left when they are apart, and the polygon is returned whole when the rectangle covers it, also for concave polygons. '
     'The polygon and the rectangle are unchanged.',
     'all positions of the cutting sides, polygon orders, all points', 'tests use a few positions; corners sticking out by less than the tolerance are never tried',
     ['polygon_2d.py', 'line_2d.py'], [('get_rectangle_clipped_polygon', 'polygon_2d.py')],
     'convex polygons of up to 24 vertices, both orders, also of symbolic size and place; up to three sides cutting at once. Cuts by the bottom side are a recorded known finding')
prop('C29', 'Matrices act as affine maps: product, inverse, updates, determinant',
     'A matrix maps (x, y) to (m11 x + m12 y + dx, m21 x + m22 y + dy) in all call forms; a product applies the right factor first and multiplies determinants, translate, scale and rotate act after what the matrix already did, and make_ functions build these maps alone. '
     'A matrix is reported invertible when its determinant exceeds 1e-6 in size; the inverse then undoes it, and for determinant 0 it is the identity. Only in-place operations change their operand; equality means equal entries.',
     'all entries, points, angles, sequences of two updates, one object used twice', 'tests use a few matrices; operands overwritten as a side effect are not looked at again',
     ['matrix_2d.py'], [('Matrix2D', 'matrix_2d.py')], 'the invertibility threshold with a 1% gap', ('inputs', 'histories'))
prop('C30', 'The convex hull is the convex hull, by both supported methods',
     'For three or more points not all on a line, wrapping (the default) and Graham scan return input points, none twice, such that every input point lies on the inner side of every edge, counter-clockwise for wrapping, clockwise for Graham scan; no corner is lost when points lie on an edge. '
     'Edges join consecutive vertices all the way round, the polygon has the same vertices, fewer than three points have no hull. '
     'Input points and the caller\'s list are kept, and recomputing after adding or clearing points is like a fresh hull.',
     'all positions of the points; histories of compute, add, clear', 'tests use three point sets; points on edges and recomputation are never tried',
     ['convex_hull.py', 'triangle_2d.py'], [('compute_wrapping_method, compute_graham_scan, to_polygon', 'convex_hull.py')],
     'three and four fully symbolic points; one symbolic point among four to ten concrete ones, clouds of symbolic size and place, rings of up to 32 (thorough: two symbolic points); general position by a margin, or exactly on an edge. DIRECT_METHOD is excluded (documented as not to be used)', ('inputs', 'histories'))
prop('C31', 'Inertia travel and geometric series agree with step-by-step motion',
     'Travel, point and distance after n steps equal n repetitions of "move by the velocity, then multiply it by the decay"; the final travel is their limit, so n steps plus the final travel of the rest equals the final travel. '
     'The first term of a geometric series makes its terms add up to the sum, and the series length is the number of terms after which they do (-1 when impossible, 0 for sum 0). Arguments are unchanged.',
     'all velocities, decays, sums, ratios', 'tests use single values of decay and ratio',
     ['soccer_math.py'], [('inertia_*, calc_first_term_geom_series, calc_length_geom_series', 'soccer_math.py')],
     'step by step for n up to 14, by recursion for symbolic n up to 2000; decay in [0, 0.999]; ratio away from 1')
prop('C32', 'Rounding, quantising, clamping and ranges are within their steps',
     'Integer rounding gives the nearest integer; quantising gives a whole number of steps at most half a step away, and unquantising bounds enclose every value that quantises so. '
     'Quantised distances keep the relative error of half a logarithmic step (then tenths), and two distances seen alike differ by at most the reported error. '
     'Clamping returns the value, or the limit it exceeds; ranges yield start, start+step, ... strictly before stop, also downwards.',
     'all values, steps, limits', 'tests use a few values; negative values and halves are where rounding goes wrong',
     ['soccer_math.py'], [('r_int, quantize, quantize_dist, unquantize_*, bound, min_max, f_range', 'soccer_math.py')],
     'values up to 10000, steps 0.01 to 10, ranges of up to 40 elements; ties may go either way')
prop('C33', 'Kick, dash, turn, speed and wind effects follow their documented formulas',
     'The kick rate falls from full power linearly with direction and distance, is symmetric and stays between half and full power within the kickable margin. '
     'The dash rate is 1 forward, the side and back rates sideways and backwards, linear between and symmetric; turning is reduced by speed and inertia; the final speed is the one dashing keeps up, and exceeds the limit exactly when so reported. '
     'The wind pushes along its direction in proportion to force and speed, and the random part is written to the error vector.',
     'all parameter values', 'tests use single values', ['soccer_math.py'],
     [('kick_rate, dir_rate, effective_turn, final_speed, can_over_speed_max, wind_effect', 'soccer_math.py')], 'parameters within server ranges')
prop('C34', 'Asking never changes an object; answers after a change are as if built afresh',
     'Reading or querying an angle, vector, line, segment, ray, triangle, circle, size, rectangle, sector or matrix any number of times changes neither its state nor later answers. '
     'After any update (every setter, assignment, move, swap, in-place operator, or a write through a reference-returning reader), also after two updates with queries in between, every answer equals that of an object newly built in the resulting state. '
     'Objects of one kind, including those built without arguments, never influence each other.',
     'histories query, change, query, change, query over all update methods, with symbolic arguments of the last change', 'tests call each method on a new object; stale or shared state shows only in the second query after a change',
     ['angle_deg.py', 'vector_2d.py', 'segment_2d.py', 'ray_2d.py', 'triangle_2d.py', 'circle_2d.py', 'rect_2d.py', 'size_2d.py', 'sector_2d.py', 'matrix_2d.py', 'polygon_2d.py'],
     [('all mutators and readers', 'rect_2d.py')], 'start states and the first of two changes are concrete; arguments of the last change symbolic in [-60, 60] (circles: [1, 9]) (segments: one at a time); results compared exactly', ('histories', 'inputs'))
prop('C35', 'Printing shows the current numbers of an object and changes nothing',
     'The text of an angle, vector, size, line, segment, ray, triangle, circle, rectangle, sector, matrix, polygon or hull (repr, str, formatting) shows exactly the numbers the object is made of at that moment, in order and unrounded, also after any update and after earlier printing; a line through the origin may omit its constant. '
     'to_str of a circle, segment, triangle or rectangle returns the given text followed by the shape with its numbers rounded to three decimals. The object is unchanged.',
     'all states of all objects; histories print, change, print', 'no test prints anything but a few concrete objects; stale or swapped numbers show only after a change',
     ['angle_deg.py', 'vector_2d.py', 'size_2d.py', 'line_2d.py', 'segment_2d.py', 'ray_2d.py', 'triangle_2d.py', 'circle_2d.py', 'rect_2d.py', 'sector_2d.py', 'matrix_2d.py', 'polygon_2d.py', 'convex_hull.py'],
     [('__repr__, to_str', 'segment_2d.py')], 'numbers in a text are tokens of the symbolic values (the digits of a float are CPython\'s); to_str: one number symbolic at a time in [-1000, 1000]', ('inputs', 'histories'))
