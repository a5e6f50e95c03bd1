PROPS = [
dict(id='G05', title='Ray intersections with every primitive agree with the geometry',
 statement='For every sphere, cylinder (also partial), disk (also annulus or sector), triangle, plane and distant source, however placed or transformed, a ray that is not grazing is reported to hit it exactly if it does; the reported point is on the ray and on the surface and is the first one in front of the origin, the normal is the surface normal, and the reported side is the one the ray comes from. Areas and bounds are those of the shape.',
 over=['inputs'], q='all primitives, transformations and non-grazing rays (inside, outside, axis-parallel)',
 why='Tests shoot a few axis-aligned rays; wrong branches appear for particular orientations, partial limits and origins.',
 files=['geometry/src/sphere3d.rs', 'geometry/src/cylinder3d.rs', 'geometry/src/disk3d.rs', 'geometry/src/triangle3d.rs', 'geometry/src/plane3d.rs', 'geometry/src/distant_source3d.rs'],
 mech=[('Intersections', 'geometry/src/*.rs: impl Intersect / intersect, intersect_local_ray, simple_intersect'), ('Sides and normals', 'geometry/src/intersection.rs: SurfaceSide::get_side, IntersectionInfo')],
 note='thousands of random primitives and rays compared with closed forms'),
dict(id='G06', title='Bounding boxes never lose what they bound',
 statement='A ray that passes through a bounding box is never reported to miss it, and one that clearly misses is reported so, for any direction including axis-parallel ones; unions contain both boxes and intersections only what both contain. Segments that cross are reported to cross at the right point, others are not.',
 over=['inputs'], q='all boxes (also flat), rays and segments',
 why='Slab tests fail for particular signs, zeros and flat boxes.',
 files=['geometry/src/bbox3d.rs', 'geometry/src/segment3d.rs'], mech=[('Slab test', 'geometry/src/bbox3d.rs: intersect'), ('Segments', 'geometry/src/segment3d.rs: get_intersection_pt, contains_point')],
 note='random boxes, rays and segments with exact oracles'),
dict(id='G07', title='Transforms and their inverses compose like affine maps',
 statement='Any product of translations, rotations and scalings maps points, vectors, normals, rays and boxes as the composed affine map does, its inverse undoes it, and it reports correctly whether it swaps handedness. The error bounds it returns for points, vectors and rays cover the exact difference from the exact map.',
 over=['inputs'], q='all sequences of elementary transforms and all points',
 why='The tests apply single transforms; inverse and order errors show only in products.',
 files=['geometry/src/transform.rs'], mech=[('Transforms', 'geometry/src/transform.rs')],
 note='products of up to 5 transforms against an independent affine map'),
dict(id='G09', title='Approximate numbers always contain the exact result',
 statement='Arithmetic on numbers with error bounds returns bounds that contain the exact result for every choice of exact operands within the bounds of the inputs, whatever their signs, and adds at most a few units in the last place. The roots it reports for a quadratic contain the true roots in increasing order.',
 over=['inputs'], q='all intervals, operands and well-separated quadratics',
 why='Tests use positive numbers; a bound that is off by one bit or swapped for negative operands is invisible to them.',
 files=['geometry/src/round_error.rs'], mech=[('Interval arithmetic', 'geometry/src/round_error.rs: ApproxFloat')],
 note='error-free transformations decide containment exactly'),
dict(id='G10', title='Points, vectors and triangles obey the algebra of space',
 statement='Every arithmetic operation on points and vectors gives the result of the same operation on their coordinates, distances, projections and comparisons included, and every basis built around a direction is orthonormal. A triangle reports its measures, circles, neighbours and the position of any point with respect to it as its corners dictate.',
 over=['inputs'], q='all points, vectors, factors and triangles',
 why='Each operator is a separate function; tests use a few of them on integers.',
 files=['geometry/src/point3d.rs', 'geometry/src/vector3d.rs', 'geometry/src/triangle3d.rs'], mech=[('Operators', 'geometry/src/point3d.rs, vector3d.rs'), ('Triangles', 'geometry/src/triangle3d.rs: new, test_point, circumcenter, compare')],
 note='coordinates computed apart; barycentric positions known by construction'),
dict(id='G11', title='Outlines keep their measures through every operation on them',
 statement='Outlines and polygons that are cleaned of redundant points, projected on a plane or snapped to points then report the area, perimeter, normal and bounds of the corners they have, and the corners are where that operation puts them. Two outlines are found equal, and an outline is found to have a given corner or side or to be crossed by a segment, exactly when that is so.',
 over=['inputs', 'histories'], q='all simple outlines, however oriented, and sequences of operations on them',
 why='Cached measures go stale only after a particular operation, which the tests do not measure.',
 files=['geometry/src/loop3d.rs', 'geometry/src/polygon3d.rs'], mech=[('Outlines', 'geometry/src/loop3d.rs: close, push, reverse, project_into_plane, snap, is_equal, contains_segment, sanitize'), ('Polygons', 'geometry/src/polygon3d.rs')],
 note='measures recomputed from the corners after every operation; Loop3D::bite and ::intersection are heuristics and are not judged'),
dict(id='G12', title='Outlines share and bite exactly the area where they overlap',
 statement='The common part of two outlines on a plane is an outline that encloses exactly the area in both of them and faces as the first one, and there is none exactly when they are apart, whichever corners they start at and directions they go, with corners in each other or just crossing sides. What is left of an outline that another one bites is exactly the part that is not in the other.',
 over=['inputs'], q='all pairs of outlines whose common part, or what is left, is one piece without holes',
 why='Tests intersect a few rectangles with corners in each other; walking around outlines goes wrong depending on where they start and what they cross.',
 files=['geometry/src/loop3d.rs'], mech=[('Common part', 'geometry/src/loop3d.rs: intersection'), ('Bite', 'geometry/src/loop3d.rs: bite')],
 note='exact areas by polygon clipping, membership of points'),
]
