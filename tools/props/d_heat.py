PROPS = [
dict(id='H01', title='Solar energy on a wall or window is absorbed, reflected or transmitted, once',
 statement='For every stack of opaque or glazed layers, combining layers conserves energy (absorbed + reflected + transmitted = 1), the absorption of every layer equals that of tracing all inter-reflections, with the two faces of asymmetric layers told apart, and the share of every layer is given to that layer\'s nodes, seen from the front and from the back. A construction the module cannot simulate (missing data, gas at the surface, two adjoining gases, absorption plus transmission above one, ground boundary) is an error, never a crash or a simulation with invalid values.',
 over=['inputs'], q='all constructions',
 why='Tests use symmetric layers and well-formed constructions.',
 files=['heat/src/glazing.rs', 'heat/src/surface.rs', 'heat/src/discretization.rs'], mech=[('Optics of layers', 'heat/src/glazing.rs'), ('Absorbed by node', 'heat/src/surface.rs: ThermalSurfaceData::new')],
 note='inter-reflection tracing as an oracle'),
dict(id='H02', title='The discretization of a wall is the wall',
 statement='For every construction, time step and maximum element size, the nodes and segments of the discretization have the total thermal mass and resistance of the layers (in their order, cavities included, with the emissivities of the faces they separate), light layers have no mass, every massive element is thin enough, and the time subdivision makes every massive layer stable.',
 over=['inputs'], q='all constructions and time steps',
 why='Tests discretise a handful of walls.',
 files=['heat/src/discretization.rs', 'heat/src/cavity.rs'], mech=[('Discretization', 'heat/src/discretization.rs: Discretization::new, build, get_chunks')],
 note='layer by layer against the construction'),
dict(id='H03', title='Walls conduct heat as physics dictates',
 statement='In every building: if everything is at the same temperature nothing changes; without heat sources no node or space leaves the range of the temperatures around it, at any time step and for any construction; a wall described from its other side behaves the same; over a short step every massive node changes by the heat flowing into it (conduction, convection, infrared, absorbed sun) over its capacity; and in the long run what enters a wall leaves it.',
 over=['inputs', 'histories'], q='all buildings, constructions, boundaries, irradiances and time steps',
 why='The validations compare few walls and time steps; instability and asymmetries appear for other combinations of layers and boundaries.',
 files=['heat/src/surface.rs', 'heat/src/discretization.rs', 'heat/src/heat_model.rs'], mech=[('March', 'heat/src/surface.rs: march, march_mass, march_nomass'), ('Thermal network', 'heat/src/discretization.rs: get_k_q'), ('RK4', 'heat/src/surface.rs: rk4')],
 note='conservation, maximum principle, symmetry; own integrator'),
dict(id='H04', title='Spaces balance their heat',
 statement='In every building, the air temperature of every space evolves as the exact solution of its heat balance: convection from every wall and window on its side (with its area and reported coefficient), infiltration, ventilation, heaters, coolers and luminaires assigned to it, over the heat capacity of its air; also for spaces that exchange with nothing. The reported convective heat flow of each side is the coefficient times the temperature difference. The order in which spaces, walls and equipment are listed does not matter.',
 over=['inputs', 'histories'], q='all buildings, states and orders of declaration',
 why='Tests have one zone and one heat source at a time.',
 files=['heat/src/heat_model.rs', 'heat/src/zone.rs', 'heat/src/heating_cooling.rs', 'heat/src/luminaire.rs'], mech=[('Zone balance', 'heat/src/heat_model.rs: calculate_zones_abc, estimate_zones_future_temperatures'), ('Equipment', 'heat/src/heating_cooling.rs, heat/src/luminaire.rs')],
 note='own balance of every space'),
dict(id='H05', title='Films and cavities exchange the right amount of heat',
 statement='For every temperature, tilt, gas, thickness and emissivity, a cavity conducts at least its still gas, convects according to ISO 15099 (never when heated from above), radiates between its faces and behaves the same seen from either side. Every side of every wall uses the TARP film of what it faces: outdoors the wind at its height and terrain, windward or leeward of that side, indoors natural convection with the tilt and temperature of that side; fixed coefficients are respected.',
 over=['inputs'], q='all tilts, temperatures, gases, thicknesses, winds, boundaries',
 why='Tests sample a few values of each formula; which side, sign and unit are used is seen only in tilted, two-sided, windy cases.',
 files=['heat/src/gas.rs', 'heat/src/cavity.rs', 'heat/src/convection.rs', 'heat/src/surface.rs', 'model/src/site_details.rs'], mech=[('Cavities', 'heat/src/gas.rs, heat/src/cavity.rs'), ('Films', 'heat/src/convection.rs, heat/src/surface.rs: calc_border_conditions')],
 note='independent formulas and symmetries'),
]
