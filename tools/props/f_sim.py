PROPS = [
dict(id='R01', title='The results file says what was simulated',
 statement='A simulation writes a header naming the variables asked for (all if none), and a row per time step of the weather period, each with its date and as many values as the header, to three decimals: those of the state after the controller acts once and the physics march on the weather at that date. Writers that take part of the data, or are interrupted, miss nothing; failures to write, and options or weather that make no sense, are errors.',
 over=['inputs', 'histories', 'fault_sequences'], q='all models, weather, outputs, controllers, steps per hour and writers',
 why='The tests run four models into a vector of bytes and look at some temperatures.',
 files=['src/run_simulation.rs', 'src/multiphysics_model.rs', 'derive/src/simulation_state_behaviour.rs'], mech=[('Driver', 'src/run_simulation.rs: run, run_rhai'), ('Names of the outputs', 'derive/src/simulation_state_behaviour.rs: derive_output')],
 note='own stepping and own reader of the results'),
dict(id='R02', title='The state is all a simulation remembers',
 statement='The same model, weather and actions give exactly the same simulation, and a simulation resumed from any saved state continues exactly as the original, whichever instance runs it. Marching never changes the powers and openings set by the controller, nor the model, nor the size of the state, and keeps it finite. Each step is that of the sun, then the air, then the heat.',
 over=['inputs', 'histories', 'crash_points'], q='all models, weather, actions and points of resumption',
 why='No test runs a model twice or resumes it.',
 files=['src/multiphysics_model.rs', 'heat/src/heat_model.rs', 'air/src/air_model.rs', 'light/src/solar_model.rs'], mech=[('March', 'src/multiphysics_model.rs')],
 note='runs compared bit by bit'),
dict(id='K01', title='Control scripts read and write what they name',
 statement='In control scripts, spaces, surfaces, fenestrations, luminaires and HVACs are found by name or index, and reading or writing each of their properties reads or writes exactly its own value of the state, with integers and decimals alike. What does not exist (names, indices, properties not in the state) is an error, after which nothing else changes. The script acts on the state of the simulation every time it is called.',
 over=['inputs', 'histories'], q='all models, states and scripts',
 why='The API is generated by macros for ~40 properties of 7 types; the tests touch a handful.',
 files=['derive/src/field.rs', 'derive/src/object_struct.rs', 'derive/src/object_enum.rs', 'model/src/rhai_api.rs', 'src/rhai_script_controller.rs'], mech=[('Accessors', 'derive/src/field.rs: api_getter, api_setter'), ('Lookup', 'derive/src/object_struct.rs: gen_object_api')],
 note='own interpretation of random scripts'),
dict(id='K02', title='Thermostats heat when cold and cool when hot',
 statement='The occupant controller sets every HVAC with a space, setpoint and power to full heating below its heating setpoint, full cooling above its cooling setpoint (if it cools), and off otherwise, according to the temperature of its own space; it leaves everything else alone.',
 over=['inputs'], q='all HVACs and states',
 why='The tests use one space and one HVAC.',
 files=['src/occupant_behaviour.rs', 'model/src/hvac/mod.rs'], mech=[('Controller', 'src/occupant_behaviour.rs')],
 note='rules of a thermostat'),
dict(id='X06', title='Every object owns its part of the state',
 statement='The state header accepts personal, then operational, then physical elements, gives each its index, and a refused element changes nothing; copying one kind of elements leaves the others alone. In any model, every element of the state belongs to exactly one object, whose index points back at it, and exists only if the object needs it.',
 over=['inputs', 'histories'], q='all models and sequences of elements',
 why='A wrong index makes two objects share a value, which shows only in models with several of each.',
 files=['model/src/simulation_state.rs', 'model/src/simulation_state_element.rs', 'derive/src/field.rs', 'heat/src/surface.rs', 'light/src/solar_model.rs', 'air/src/air_model.rs'], mech=[('Header', 'model/src/simulation_state.rs'), ('Fields', 'derive/src/field.rs')],
 note='list model; two-way index audit'),
]
