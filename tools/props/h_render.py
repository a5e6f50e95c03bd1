PROPS = [
dict(id='N01', title='A ray hits the nearest thing in its way',
 statement='For every scene and every ray, what the ray is said to hit is the nearest of all the surfaces in its way, at its point, on the side it comes from, with a right-handed frame of perpendicular unit axes; it is said to hit nothing only if nothing is there. Asking whether there is anything before a distance gives the same answer as looking for the nearest surface. The order in which the things were added, and how they are organised to search them faster, change nothing.',
 over=['inputs'], q='all scenes (triangles of every size, spheres, meshes, coincident and degenerate arrangements) and rays',
 why='The tests of the tree cast a few rays at one model; trees hide surfaces only in rare arrangements of boxes, splits, orders and directions of rays.',
 files=['rendering/src/bvh.rs', 'rendering/src/triangle', 'rendering/src/scene.rs', 'geometry/src/bbox3d.rs'], mech=[('Bounding volume tree', 'rendering/src/bvh.rs'), ('Crossing triangles', 'rendering/src/triangle')],
 note='brute force over every triangle'),
dict(id='N03', title='Materials reflect and transmit the share that they are made of',
 statement='For every material and direction, the directions sampled and their weights agree with evaluating the material in every direction and with its probability density; nothing reflects and transmits more than it receives, and panes of glass, dielectrics and mirrors split light according to Fresnel and Snell. Reflections leave on the side of arrival, at the mirrored angle if specular, and swapping both directions of reflection changes nothing beyond what the published model does.',
 over=['inputs'], q='all materials, frames and directions',
 why='The tests look at some diffuse and specular cases; sampling and evaluation that disagree bias every image slightly.',
 files=['rendering/src/material/mod.rs', 'rendering/src/material/ward.rs', 'rendering/src/material/specular.rs', 'rendering/src/material/glass.rs', 'rendering/src/material/dielectric.rs'], mech=[('Materials', 'rendering/src/material')],
 note='statistics of samples against quadrature and closed forms'),
dict(id='N04', title='Random samples are evenly spread and have the density they report',
 statement='Points sampled on triangles, discs, spheres and hemispheres (even or cosine-weighted) are spread over them as they say, without exception for any pair of random numbers. Directions sampled towards a light always point to it; their density is that of its solid angle seen from the point.',
 over=['inputs'], q='all shapes, positions and random numbers',
 why='The tests check one sphere and a few sums.',
 files=['rendering/src/samplers.rs', 'rendering/src/primitive_samplers.rs', 'rendering/src/primitive.rs'], mech=[('Samplers', 'rendering/src/samplers.rs'), ('Lights', 'rendering/src/primitive_samplers.rs')],
 note='counts in cells of equal probability; solid angles and moments'),
dict(id='N05', title='Images and matrices of colours survive their files',
 statement='Any image or matrix of colours that is written and read back has the same size and values, to the precision of its format, and operations on them (averages, luminance, differences) are those of their pixels. Files that are truncated or whose contents do not have the announced size are an error, not a different image.',
 over=['inputs', 'fault_sequences'], q='all sizes and values; all truncations and damaged bytes',
 why='The tests encode some colours; dark and bright values, and damaged files, are not read back.',
 files=['rendering/src/image.rs', 'rendering/src/colour_matrix.rs'], mech=[('RGBE images', 'rendering/src/image.rs'), ('Matrices', 'rendering/src/colour_matrix.rs')],
 note='round trips and damaged files'),
dict(id='N06', title='Colour scales give each value its place between the extremes',
 statement='For every scale and limits, the colour of any value is that of its position between them in the published table of colours, interpolated, and that of the extremes beyond them. Images in false colour use it for every pixel.',
 over=['inputs'], q='all scales, limits and values',
 why='The tests read a few values of one scale.',
 files=['rendering/src/colourmap/mod.rs', 'rendering/src/image.rs'], mech=[('Scales', 'rendering/src/colourmap/mod.rs')],
 note='own interpolation of the tables'),
dict(id='N07', title='Daylight coefficients and skies deliver the light that they describe',
 statement='For every scene and sensor, the daylight coefficients times any discretised sky are the light that arrives to that sensor from that sky, through openings, mirrors and up to the given number of bounces; each sensor keeps its row, and in the open they add up to the hemisphere. Under the Perez sky of any place and time, a surface receives the sun and the sky that the published model gives, and nothing at night.',
 over=['inputs'], q='all scenes, sensors, subdivisions, bounces, places, dates and radiation',
 why='No stable test calculates coefficients or uses a Perez sky.',
 files=['rendering/src/daylight_coefficients.rs', 'rendering/src/scene.rs', 'weather/src/solar/perez.rs', 'weather/src/solar/reinhart_sky.rs'], mech=[('Coefficients', 'rendering/src/daylight_coefficients.rs'), ('Perez sky', 'rendering/src/scene.rs: add_perez_sky')],
 note='independent path tracer and quadrature'),
dict(id='N08', title='Cameras and pixels agree with each other',
 statement='For every view and resolution, the ray of each pixel goes through the place of that pixel in the field of view, and the pixel of the direction of that ray is that pixel. Directions out of sight have no pixel.',
 over=['inputs'], q='all views, resolutions, pixels and directions',
 why='The test looks at one camera.',
 files=['rendering/src/camera/pinhole.rs', 'rendering/src/camera/mod.rs'], mech=[('Pinhole', 'rendering/src/camera/pinhole.rs')],
 note='projection written independently'),
dict(id='N09', title='Radiance files become the scene that they describe',
 statement='Every valid Radiance file of the supported kinds, however it is spaced and its numbers written, becomes a scene with its materials and their values, its polygons (covered exactly once, facing as they do in the file), its spheres and its lights, near and distant. Each thing has the material whose definition precedes it, the latest if there are several of the same name.',
 over=['inputs'], q='all files of materials, polygons, spheres and sources',
 why='One room is read by the tests of the scenes, which are not in the stable suite.',
 files=['rendering/src/from_radiance.rs', 'rendering/src/scene.rs'], mech=[('Reader', 'rendering/src/from_radiance.rs')],
 note='generated files with known contents'),
dict(id='N10', title='OBJ files become the triangles that they describe',
 statement='Every valid OBJ file adds to the scene its faces of three and four vertices, as triangles with the same corners in the same order and with the materials asked for, whatever the style of its faces, groups or numbers. What was in the scene stays.',
 over=['inputs'], q='all files with faces of up to four vertices',
 why='The test loads one file and checks that it does not fail.',
 files=['rendering/src/from_obj.rs', 'rendering/src/scene.rs'], mech=[('Reader', 'rendering/src/from_obj.rs')],
 note='generated files with known contents'),
dict(id='N11', title='Light that is traced is the light that arrives',
 statement='For every scene, the expected brightness of what is seen is that of following every path of light up to the given number of bounces: lights are counted once, whether they are aimed at or met by chance, shadows are where something is in the way, and what does not absorb disappears under a uniform sky. Every pixel of a rendered image shows what its own ray finds. Brightness is never negative nor undefined.',
 over=['inputs', 'schedules'], q='all scenes, materials, lights, skies, views and numbers of samples, bounces and threads',
 why='All tests of rendering that compare brightness are in the validation suite; the stable ones print.',
 files=['rendering/src/ray_tracer.rs', 'rendering/src/scene.rs', 'rendering/src/material', 'rendering/src/camera'], mech=[('Ray tracer', 'rendering/src/ray_tracer.rs'), ('Materials', 'rendering/src/material')],
 note='closed forms and an independent path tracer'),
]
