PROPS = [
dict(id='B01', title='The programs do what the library does, on the files they are given',
 statement='The simulation program checks, translates or simulates the model it is given, with the weather, controls and steps asked for, giving exactly what the library gives, in the screen or in the file asked for, replacing what was there and leaving its inputs as they were. Those for rendering, daylight coefficients, false colours and comparison of images do likewise, with short or long options. Mistakes (files that do not exist or cannot be read, options or images that do not fit) end with an error, not with a crash or a success.',
 over=['inputs', 'configurations'], q='all files and options',
 why='No test runs the programs.',
 files=['bin/simple.rs', 'bin/spict.rs', 'bin/sfluxmtx.rs', 'bin/sfalsecolor.rs', 'bin/scompare.rs', 'src/run_simulation.rs'],
 mech=[('Programs', 'bin/*.rs: main')],
 note='the programs themselves are run, and their files compared with those the library writes'),
]
