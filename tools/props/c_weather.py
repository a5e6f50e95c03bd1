PROPS = [
dict(id='W01', title='Weather between records is the interpolation of its neighbours, all year round',
 statement='Asking for the weather at any date returns the record of that date, or, between records, the time-proportional interpolation of the previous and the next record in every field (wind directions turn the shorter way), also between the last record of the year and the first of the next. Sorting orders records by date and loses none.',
 over=['inputs'], q='all sets of records and all dates, before the first, between and after the last',
 why='Tests look up a few dates within the data.',
 files=['weather/src/lib.rs', 'weather/src/current_weather.rs', 'weather/src/synthetic_weather.rs'], mech=[('Lookup', 'weather/src/lib.rs: find_weather_line'), ('Interpolation', 'weather/src/current_weather.rs: interpolate')],
 note='every field against an independent cyclic interpolation'),
dict(id='W02', title='EPW weather files are read faithfully or refused',
 statement='Every value of a well-formed EPW file (location, ground temperatures and every column of every hourly record) ends up in its field with the right unit, whatever the number format, line ending or optional headers, and the records are converted to simulation weather in order. Damaged files are refused with an error or read, without crashing or looping.',
 over=['inputs'], q='all well-formed EPW files; all byte strings',
 why='Tests read two files and compare few columns; none reads a damaged file.',
 files=['weather/src/epw/scanner.rs', 'weather/src/epw/weather_line.rs', 'weather/src/epw/weather.rs'], mech=[('EPW scanner', 'weather/src/epw/scanner.rs'), ('Conversion', 'weather/src/epw/weather_line.rs')],
 note='random files compared column by column; mutated files'),
dict(id='W03', title='The sun is where astronomy puts it',
 statement='For every place, time zone and date, solar time, declination, sunrise and sunset, and the direction of the sun agree with spherical astronomy (with the declination and equation of time of Spencer), east is east in both hemispheres, and there is no sun exactly when it is below the horizon, including polar days and nights and times whose solar time falls in another day or year.',
 over=['inputs'], q='all latitudes up to 89 degrees, longitudes, time zones and dates',
 why='Tests compute a few positions; sign and wrap-around errors show at other hemispheres, polar latitudes and around New Year.',
 files=['weather/src/solar/mod.rs', 'weather/src/location.rs'], mech=[('Sun position', 'weather/src/solar/mod.rs: sun_position, hour_angle, sunrise_sunset, unwrap_solar_time'), ('Sign conventions', 'weather/src/location.rs: get_solar')],
 note='independent spherical astronomy'),
dict(id='W04', title='Sky models conserve the measured radiation',
 statement='For every plausible sky, the discretised Perez sky is finite and non-negative, the patches lit by the sun surround it and carry exactly the direct normal radiation, the sky patches carry the diffuse horizontal radiation, the ground reflects the albedo share of the global radiation, and the parts add up. It is dark at night, varies continuously around the sun, and does not depend on previous contents of a recycled vector.',
 over=['inputs', 'histories'], q='all daytimes, radiation values, discretizations and vectors',
 why='Tests compare three skies with Radiance; energy may get lost at other altitudes and sky clearness categories.',
 files=['weather/src/solar/perez.rs'], mech=[('Perez sky', 'weather/src/solar/perez.rs: get_sky_func_standard_time'), ('Sky vector', 'weather/src/solar/perez.rs: update_sky_vec, gen_sky_vec')],
 note='energy balances over patches'),
dict(id='W05', title='The sky partition covers every direction exactly once',
 statement='For every subdivision, the patches of the sky cover the hemisphere without gap or overlap: their solid angles are exact and add up to 2 pi, the centre of each patch is in it, and every direction belongs to the patch that geometrically contains it; directions below the horizon belong to the ground.',
 over=['inputs'], q='all subdivisions and directions',
 why='Tests use one or two subdivisions; rows and wrap-around at north go wrong for others.',
 files=['weather/src/solar/reinhart_sky.rs'], mech=[('Reinhart sky', 'weather/src/solar/reinhart_sky.rs')],
 note='mf 1-8, exhaustive over patches, random directions'),
dict(id='W06', title='Radiation estimated from clouds is physical',
 statement='Filling in solar radiation from cloud cover leaves all other weather data alone and yields, for every record, finite non-negative direct, diffuse and global radiation, with global = diffuse + direct times the sine of the solar altitude, and none at night. The estimate depends on the weather only, not on radiation recorded before.',
 over=['inputs'], q='all sequences of weather records and places',
 why='Undefined values appear for particular combinations (no global radiation, sudden cooling) which tests do not sample.',
 files=['weather/src/lib.rs', 'weather/src/solar/mod.rs'], mech=[('Estimation', 'weather/src/lib.rs: fill_solar_radiation_data'), ('Split', 'weather/src/solar/mod.rs: direct_diffuse_from_cloud_generic, perez_direct_normal_radiation, disc_direct_solar')],
 note='balance of every record'),
dict(id='W07', title='Estimates of solar radiation follow the published models',
 statement='For any place, date, position of the sun and weather, the air mass, atmospheric transmittance, clear-sky and cloudy-sky global radiation, diffuse fraction, and the static and dynamic estimates of direct radiation are those of the published models, with the right coefficients for each class of clearness, solar altitude, variability and humidity.',
 over=['inputs'], q='all sun positions, dates, places and weather',
 why='Tests look at a few points of each formula, and none at what picks the coefficients from the table.',
 files=['weather/src/solar/mod.rs'], mech=[('Formulas', 'weather/src/solar/mod.rs: air_mass, beam_atmosphere_transmittance, clear_sky_global_horizontal_rad, estimate_global_horizontal_radiation, diffuse_fraction, disc_direct_solar'), ('Dynamic model', 'weather/src/solar/mod.rs: perez_direct_normal_radiation, perez_direct_rad_coefs')],
 note='independent implementations; every cell of the table is visited. The values of the table are a copy of those in the code'),
dict(id='W08', title='The sky shines as the all-weather model says',
 statement='For any position of the sun, direct and diffuse radiation and humidity, the radiance of the modelled sky in every direction is that of the all-weather sky of Perez et al., with the coefficients of its clearness class and brightness. In luminous units, the sky, the sun and the ground carry the solar radiation times the published luminous efficacies.',
 over=['inputs'], q='all sun positions, clearness and brightness of the sky, directions and dew points',
 why='Tests compare three skies with Radiance, visiting three of the eight clearness classes.',
 files=['weather/src/solar/perez.rs'], mech=[('Distribution', 'weather/src/solar/perez.rs: calc_params, get_sky_func_standard_time'), ('Efficacies', 'weather/src/solar/perez.rs: diffuse_illuminance_ratio, direct_illuminance_ratio, update_sky_vec')],
 note='independent implementation of the model, every class and its borders visited'),
]
