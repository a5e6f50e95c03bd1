PROPS = [
dict(id='X01', title='Models say what their files say',
 statement='Reading a model, from text or JSON, gives every object and value in the file, documented defaults for what is absent, and nothing else. The order of objects and fields, blanks, comments, quotes, and the characters in names and comments, change nothing. Windows in a wall take its boundaries.',
 over=['inputs'], q='all models, and all ways of writing them',
 why='The tests read one file per kind of object, always written in the same style.',
 files=['model/src/scanner.rs', 'model/src/model.rs', 'geometry/src/loop3d.rs', 'geometry/src/polygon3d.rs'], mech=[('Text', 'model/src/scanner.rs: parse_model'), ('JSON', 'model/src/model.rs: SimpleModelVisitor')],
 note='facts of the generator against those of the getters'),
dict(id='X02', title='Models survive being written and read',
 statement='A model written as text or as JSON, to a string or to a file, and read back, has the same objects and values; walls with windows keep their area and orientation, and windows their boundaries.',
 over=['inputs'], q='all models and ways of writing',
 why='The tests write and read a couple of models and look at a few values.',
 files=['model/src/model.rs', 'derive/src/object_struct.rs', 'derive/src/object_enum.rs', 'geometry/src/polygon3d.rs', 'geometry/src/loop3d.rs'], mech=[('Text', 'model/src/model.rs: Display, print_to_file'), ('JSON', 'model/src/model.rs: print_to_json_file')],
 note='getters before and after'),
dict(id='X03', title='Broken model files are reported',
 statement='Whatever is in a model file, reading it ends, with a model or an error, and without panicking. Unknown kinds of objects, unknown or missing fields, values of the wrong kind, and polygons that are not, are errors, and say in which line.',
 over=['inputs'], q='all files',
 why='The tests have no broken file but one.',
 files=['model/src/scanner.rs', 'model/src/model.rs', 'geometry/src/loop3d.rs'], mech=[('Scanner', 'model/src/scanner.rs'), ('Polygons', 'geometry/src/loop3d.rs: Deserialize')],
 note='mutated files; planted mistakes'),
dict(id='X04', title='Names that do not exist are refused before simulating',
 statement='A model in which a construction, material, substance, space, building or parent wall used by some object does not exist is refused, when read or when the simulation is prepared, with an error that names it.',
 over=['inputs', 'configurations'], q='all models and references',
 why='The tests break two or three of the references.',
 files=['model/src/model.rs', 'heat/src/discretization.rs', 'heat/src/heating_cooling.rs', 'heat/src/luminaire.rs', 'heat/src/heat_model.rs', 'air/src/resolvers.rs'], mech=[('When read', 'model/src/model.rs: add_*'), ('When prepared', 'src/multiphysics_model.rs: new')],
 note='one reference broken at a time in a model that works'),
dict(id='X05', title='Windows take their place in the wall',
 statement='Adding a window to a wall removes its area from that wall only, gives it the boundaries of the wall (swapped if it faces the other way) and its own opening in the state. A window that is out of the wall, tilted, or whose wall or construction does not exist is refused, and then nothing changes.',
 over=['inputs', 'histories'], q='all walls and sequences of windows',
 why='The tests add one window that fits.',
 files=['model/src/model.rs', 'geometry/src/polygon3d.rs'], mech=[('Windows', 'model/src/model.rs: add_fenestration'), ('Holes', 'geometry/src/polygon3d.rs: cut_hole')],
 note='own account of areas and boundaries'),
dict(id='X07', title='Summaries of a model add up',
 statement='The floor area of each space is that of the floors right under it, and the total their sum; the setpoints reported for each HVAC are those it was given; and there is a location only if latitude, longitude and meridian are known.',
 over=['inputs'], q='all models',
 why='The tests look at a single model.',
 files=['model/src/model.rs'], mech=[('Floors', 'model/src/model.rs: get_space_sizes'), ('Setpoints', 'model/src/model.rs: get_hvac_setpoints')],
 note='own account'),
]
