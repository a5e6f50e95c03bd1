PROPS = [
dict(id='C01', title='Calendar dates: exact, order-preserving arithmetic over the whole year',
 statement='For every valid date of the (365-day, repeating) simulation year, the day number, hour of the year, addition of seconds, hours or days, interpolation between dates, and conversion to other date representations agree with each other and with the civil calendar. Adding a duration and then measuring the elapsed time gives the duration back, and comparisons between dates follow the time they represent.',
 over=['inputs'], q='all dates (month, day, fractional hour) and all durations, including those which cross months and New Year',
 why='The tests convert a handful of dates; errors appear at particular day numbers, wrap-arounds and durations.',
 files=['calendar/src/date.rs'], mech=[('Date arithmetic and conversions', 'calendar/src/date.rs: add_days, add_hours, add_seconds, day_of_year, from_day_of_year, hour_of_year, ordering')],
 note='every day of the year, random fractional hours and durations up to years; independent integer calendar as oracle'),
dict(id='C02', title='Stepping through a period visits each time step exactly once, and ends',
 statement='Iterating over a simulation period yields its start, then every step of the given length in strictly increasing order without gaps or repetitions, and stops at its end. This holds also for periods that wrap over New Year and for steps that do not divide the period. A date is in the period exactly when it lies between its ends, both included.',
 over=['inputs'], q='all pairs of start and end dates and all step lengths',
 why='Tests cover one or two short periods; off-by-one and wrap-around errors depend on the relation between step, start and end.',
 files=['calendar/src/period.rs', 'src/run_simulation.rs'], mech=[('Period iterator', 'calendar/src/period.rs: impl Iterator for Period')],
 note='random and boundary-hugging periods and steps, monitor counts and orders every yielded date'),
dict(id='M01', title='Dense and n-diagonal matrices obey the same algebra for all shapes',
 statement='Products, sums, scaling, transposition and element access of full and banded matrices, with or without destination reuse, give what the mathematical definition gives for every shape for which they are defined, and refuse every shape for which they are not. The result is independent of the previous contents of the destination, of whether the matrix is stored banded or full, and of whether the parallel implementation is used.',
 over=['inputs', 'configurations'], q='all matrix shapes, bandwidths and contents, in-place and allocating variants, serial and parallel builds',
 why='Tests use a few small shapes; banded storage fails at narrow, non-square or wide-band shapes.',
 files=['matrix/src/generic_matrix.rs', 'matrix/src/n_diag_generic_matrix.rs'], mech=[('Full matrices', 'matrix/src/generic_matrix.rs'), ('Banded matrices', 'matrix/src/n_diag_generic_matrix.rs')],
 note='random shapes up to 24, integer and float contents, garbage and NaN destinations, both build variants'),
dict(id='M02', title='Linear solvers return solutions, or an error',
 statement='Whenever a linear solver reports success, substituting the answer into the equations reproduces the right-hand side within the requested tolerance. Systems whose solution cannot be found are reported as errors, never as numbers that do not solve the system.',
 over=['inputs'], q='all square systems: well- and ill-conditioned, singular, banded or full, non-diagonally-dominant',
 why='Tests solve a few fixed systems; a wrong elimination or convergence criterion shows only for particular coefficients.',
 files=['matrix/src/generic_matrix.rs', 'matrix/src/n_diag_generic_matrix.rs'], mech=[('Gaussian elimination and Gauss-Seidel', 'matrix/src/generic_matrix.rs'), ('Banded elimination', 'matrix/src/n_diag_generic_matrix.rs')],
 note='residual monitor on every solved system; random dominant, random general, singular and hostile systems'),
dict(id='G01', title='Polygon outlines: area, perimeter and orientation for any simple shape',
 statement='A closed outline of any simple planar polygon, in any plane, started at any corner and with redundant collinear points, has the exact area, perimeter and right-hand-rule normal of that polygon; reversing the order of its corners only flips the normal. Outlines that are self-intersecting, non-planar or degenerate are refused.',
 over=['inputs'], q='all simple polygons, planes, starting corners and orientations; all malformed outlines',
 why='Tests use a few polygons in the horizontal plane.',
 files=['geometry/src/loop3d.rs'], mech=[('Loop construction', 'geometry/src/loop3d.rs: push, close, set_area, set_normal')],
 note='thousands of random polygons compared with the 2-D shoelace formula'),
dict(id='G02', title='Point-in-polygon answers agree with the geometry for every point',
 statement='For every closed outline and every point away from its boundary, the point is reported inside exactly if it lies in the plane of the outline and inside it. The answer does not depend on the orientation of the outline, its first corner, or alignment of the point with its corners or edges.',
 over=['inputs'], q='all simple polygons and query points, including aligned ones',
 why='Ray-crossing algorithms fail for special alignments that a few test points miss.',
 files=['geometry/src/loop3d.rs'], mech=[('Containment test', 'geometry/src/loop3d.rs: test_point')],
 note='60 hostile points per random polygon against a winding-number oracle'),
dict(id='G03', title='Triangulations tile the polygon exactly',
 statement='The triangles of a triangulated or meshed polygon, with or without holes, cover every point inside the polygon exactly once and no point outside it or in a hole; they add up to its area and face the same way. Polygons without holes, or with one hole, always get triangulated.',
 over=['inputs'], q='all simple polygons with any number of non-touching holes, in any plane',
 why='Ear clipping goes wrong for particular concave shapes and hole positions.',
 files=['geometry/src/triangulation3d.rs', 'geometry/src/polygon3d.rs'], mech=[('Ear clipping', 'geometry/src/triangulation3d.rs: TryFrom<&Polygon3D>'), ('Mesh refinement', 'geometry/src/triangulation3d.rs: refine')],
 note='random convex, L, U, comb and star polygons with 0-3 holes; coverage monitor counts covering triangles per point'),
dict(id='G04', title='Holes in polygons subtract their area and are merged into one closed outline',
 statement='Cutting a hole reduces the area of a polygon by that of the hole, whichever its orientation, and points in the hole are no longer in the polygon; the single closed outline that represents the polygon with its holes has the same area. A hole that is not within the polygon, not in its plane, or that contains or overlaps another hole is refused and leaves the polygon unchanged.',
 over=['inputs'], q='all simple polygons and holes',
 why='Tests cut a square hole in a square.',
 files=['geometry/src/polygon3d.rs'], mech=[('Cutting holes', 'geometry/src/polygon3d.rs: cut_hole'), ('Closed loop', 'geometry/src/polygon3d.rs: get_closed_loop')],
 note='random polygons with 1-3 holes of 3-7 corners; misplaced holes'),
dict(id='G08', title='Splitting a polygon conserves its area on both sides of the cut',
 statement='Splitting an outline along a segment that crosses it yields pieces whose areas add up to the area of the original and equal the areas of both sides of the cut. A segment that does not cross the outline leaves it in one piece.',
 over=['inputs'], q='all convex polygons and cutting segments',
 why='Tests split a few squares.',
 files=['geometry/src/loop3d.rs'], mech=[('Splitting', 'geometry/src/loop3d.rs: split, split_from_slice')],
 note='random cuts of random polygons compared with half-plane clipping'),
]
