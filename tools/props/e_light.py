PROPS = [
dict(id='A01', title='Outdoor air leaks in at the published rates',
 statement='At every step, every space receives through infiltration outdoor air (at outdoor temperature) at the rate of its model: constant; design flow rate, BLAST and DOE-2 with the wind at its terrain and the current indoor-outdoor temperature difference; or effective leakage area with the stack and wind coefficients of its own building, given or from the published tables of storeys and shelter. Spaces without infiltration receive none, nothing else of the state changes, and a leakage area without enough data about its building is refused.',
 over=['inputs', 'histories'], q='all spaces, buildings, terrains, weather and indoor temperatures',
 why='The validations use one space, one storey and given coefficients.',
 files=['air/src/air_model.rs', 'air/src/eplus.rs', 'air/src/resolvers.rs', 'model/src/site_details.rs'], mech=[('Resolvers', 'air/src/resolvers.rs'), ('Formulas', 'air/src/eplus.rs')],
 note='published formulas and tables'),
dict(id='L01', title='Every side of every wall and window gets its own sun and infrared',
 statement='At every step, the solar irradiance reported for each side facing a space or the outdoors is the mean of the previous one and that given by its own optical data and the sky at that time and place (zero at night). Its infrared irradiance follows from its own view factors, the sky and the air if outdoors, from the temperature of the environment given, or from its own temperature indoors; openings and the rest of the state are not touched. Optical data read from a file give the same as those calculated and stored there; data that do not fit the model are an error.',
 over=['inputs', 'histories'], q='all models, optical data, locations, dates and weather',
 why='No test in the stable suite marches the solar model; mix-ups of sides, of surfaces with fenestrations, and of indices only appear with several of each.',
 files=['light/src/solar_model.rs', 'light/src/optical_info.rs', 'light/src/solar_surface.rs'], mech=[('March', 'light/src/solar_model.rs'), ('Optical data', 'light/src/optical_info.rs')],
 note='own product of optical data and sky, side by side'),
dict(id='L02', title='Walls see the sky and the ground they face',
 statement='For every orientation, the daylight coefficients of each side of a wall in the open add up to the whole hemisphere, distributed as the cosine law dictates over the directions that side faces; infrared view factors of sky, ground and air are those of its tilt, always add up to one, and other walls take the share of the view they block. Sides that receive no sun have no coefficients.',
 over=['inputs'], q='all orientations and sizes',
 why='The tests look at one vertical and one horizontal wall in an empty scene, where casting any ray gives the same answer.',
 files=['light/src/solar_surface.rs', 'rendering/src/daylight_coefficients.rs', 'weather/src/solar/reinhart_sky.rs'], mech=[('View factors', 'light/src/solar_surface.rs: calc_view_factors'), ('Daylight coefficients', 'rendering/src/daylight_coefficients.rs')],
 note='closed-form view factors'),
dict(id='L03', title='The sun in a room is what its windows transmit',
 statement='In every building, no solar radiation reaches the inside of spaces enclosed by opaque walls, whatever their layers; and the radiation that reaches the inside walls of a room through a window is what the whole of its glazing (all panes, seen from either side) transmits.',
 over=['inputs'], q='all rooms, windows and glazings',
 why='No test compares the energy that enters a window with what is received inside.',
 files=['rendering/src/from_simple_model.rs', 'rendering/src/daylight_coefficients.rs', 'rendering/src/material/glass.rs', 'light/src/solar_surface.rs'], mech=[('Optical materials of constructions', 'rendering/src/from_simple_model.rs'), ('Transmission', 'rendering/src/material/glass.rs')],
 note='energy conservation in black rooms'),
]
