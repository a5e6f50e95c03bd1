PROPS = [
dict(id='X08', title='Models answer questions about their objects correctly',
 statement='Looking for an object by its name finds the first one added with exactly that name, or nothing, and walls and windows of a construction that is not in the model, and walls between spaces that are not, are not added. Surfaces face the cardinal direction of their normal, and their inside and outside the directions that their boundaries imply; devices, substances and windows report the data they were given, and nothing else.',
 over=['inputs', 'histories'], q='all models, names, normals and boundaries',
 why='Tests have one object of each kind, with all its data, and normals along the axes.',
 files=['model/src/model.rs', 'model/src/surface_trait.rs', 'model/src/hvac/electric_heater.rs', 'model/src/hvac/ideal_heater_cooler.rs', 'model/src/substance/normal.rs', 'model/src/fenestration.rs'],
 mech=[('Lookup', 'model/src/model.rs: get_*, add_*'), ('Orientation', 'model/src/surface_trait.rs: get_orientation, outside_orientation, inside_orientation'), ('Devices', 'model/src/hvac: impl SmallHVAC')],
 note='lists of what was added; azimuth and tilt computed apart'),
dict(id='N12', title='Colours obey channel-by-channel arithmetic',
 statement='Every operation between colours, or between a colour and a number, in either order or in place, is that operation on each channel. Radiance and luminance weigh the channels by fixed positive weights that add up to one, and only colours without light are black.',
 over=['inputs'], q='all colours and numbers',
 why='Two dozen separate operators; tests use none of them with different channels.',
 files=['rendering/src/colour.rs'], mech=[('Operators', 'rendering/src/colour.rs')],
 note='channels computed apart'),
dict(id='P01', title='Polynomials evaluate to the sum of their terms',
 statement='A polynomial of up to twelve coefficients, however built, evaluates to the sum of each coefficient times its power of the argument, and more coefficients are not accepted.',
 over=['inputs'], q='all coefficients and arguments',
 why='Tests evaluate a few small integers.',
 files=['polynomial/src/lib.rs'], mech=[('Polynomial', 'polynomial/src/lib.rs: push, eval, poly!')],
 note='terms added apart'),
]
