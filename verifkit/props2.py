"""The remaining properties (see props.py)."""
from .props import P, S

PROPS = [
    P('C10', 'Normalisation conventions mean what they are named',
      'A survey measurement under the particle, mesh and mixed-mesh '
      'conventions (or none) is the same raw estimate times that '
      'convention\'s documented normalisation; the headers of saved results '
      'report the applied factor and the alternatives, and choosing a '
      'convention never changes the catalogues given.',
      ['inputs', 'configurations'],
      'All catalogues, statistics, conventions, meshes and alignments.',
      'Tests store one number per convention for one catalogue.',
      [S + 'twopt.py', S + 'threept.py', S + '_twopt.pyx', S + '_threept.pyx',
       S + 'src/twopt.cpp', S + 'src/threept.cpp'],
      [('particle, mesh and mixed-mesh normalisation', S + 'src/twopt.cpp')],
      ['results and saved headers of the public API'],
      'oracle on returned results and recorded file headers: ratio between '
      'conventions against an independent computation',
      'Reference normalisations computed directly from the catalogues.'),
    P('C11', 'Every mode and pair falls in exactly its bin',
      'A binning has exactly the requested number of bins with strictly '
      'increasing, contiguous edges between the requested limits and centres '
      'inside; a measurement counts each mesh mode or separation in the one '
      'bin whose edges enclose it, effective coordinates lie inside their '
      'bins (to the search resolution of three-point mode and pair counts), '
      'and recorded binned vectors list exactly the counted vectors.',
      ['inputs', 'configurations'],
      'All schemes, limits, bin numbers, spaces, meshes and boxes, including '
      'bins that hold no mode.',
      'Tests check two binnings and counts of one mesh.',
      [S + 'src/dataobjs.cpp', S + 'dataobjs.pyx', S + 'src/field.cpp',
       S + 'fieldmesh.py'],
      [('bin construction', S + 'src/dataobjs.cpp'),
       ('mode binning', S + 'src/field.cpp')],
      ['binning objects, counts and recorded vectors of the public API'],
      'online assertions on generated binnings and offline conservation '
      'check of recorded binned vectors against enumerated mesh modes',
      'Mode coordinates are enumerated independently.'),
    P('C12', 'Measurements respect the symmetries of the estimators',
      'Permuting particles, splitting one particle\'s weight between two '
      'coincident ones when shot noise is set aside, rescaling weights, '
      'shifting a survey along with its box, shifting a periodic box by whole '
      'cells, rotating the axes of box and catalogue where the line of sight '
      'follows, or exchanging the two sides of a symmetric three-point pair '
      'changes results only as the estimators say; and the diagonal, '
      'off-diagonal and row forms are slices of the full form.',
      ['inputs', 'histories'],
      'All catalogues, statistics, meshes, schemes, degrees and forms.',
      'Tests never compare two related measurements.',
      [S + 'twopt.py', S + 'threept.py', S + 'src/field.cpp',
       S + 'src/threept.cpp', S + 'src/particles.cpp'],
      [('catalogue alignment', S + 'catalogue.py'),
       ('data-vector forms', S + 'src/threept.cpp')],
      ['results returned by the public API'],
      'metamorphic monitors comparing recorded pairs of executions',
      'Independent of the reference model used by C04 to C09.'),
    P('C13', 'Parameter sets are either valid or rejected',
      'Building or changing a parameter set either yields a set in which '
      'every documented restriction holds, each derived value follows from '
      'the given ones, and unspecified values have documented defaults, or '
      'raises an error; a rejected change of one value does not go unnoticed '
      'in a later measurement.',
      ['inputs', 'histories', 'configurations'],
      'All parameter dictionaries and files, all orders of changes.',
      'Tests try a few wrong values of a few parameters.',
      [S + 'parameters.pyx', S + 'src/parameters.cpp',
       S + 'include/parameters.hpp'],
      [('validation', S + 'src/parameters.cpp'),
       ('parameter parsing', S + 'parameters.pyx')],
      ['parameter sets of the public API'],
      'oracle over generated and mutated parameter sets: independent '
      'statement of the documented restrictions',
      'The restrictions are restated from documentation.'),
    P('C14', 'Parameter files read back as the same parameters',
      'Writing a parameter set to a file and reading it back gives an equal '
      'parameter set, repeatedly; the C++ program reading a parameter file '
      'uses the values written there, and the parameter file it saves '
      'configures it to the same run.',
      ['inputs', 'configurations'],
      'All valid parameter sets, in both file formats.',
      'Tests round-trip the shipped templates only.',
      [S + 'parameters.pyx', S + 'src/parameters.cpp'],
      [('file reading and printing', S + 'src/parameters.cpp'),
       ('YAML saving and loading', S + 'parameters.pyx')],
      ['files written, parameters read back'],
      'offline comparison of recorded files and read-back parameters',
      'Values are compared after one write and read.'),
    P('C15', 'Catalogue operations keep every particle and its data',
      'Reading a catalogue file keeps each particle\'s columns as named, '
      'with the documented defaults for columns that are absent; boundaries, totals and lines of sight match '
      'the particles; centring, padding, periodic wrapping and offsetting '
      'move particles only by the documented shift, leave data and random '
      'relative positions intact, put periodic positions inside the box, and '
      'reversing them restores the positions.',
      ['inputs', 'histories'],
      'All catalogues, file formats and layouts, sequences of operations.',
      'Tests apply one operation to one small catalogue.',
      [S + 'catalogue.py', S + 'src/particles.cpp', S + '_particles.pyx'],
      [('catalogue reading and coordinate operations', S + 'catalogue.py'),
       ('catalogue reading and coordinate operations',
        S + 'src/particles.cpp')],
      ['catalogue objects and positions, files'],
      'state-machine workload with an online model of the catalogue',
      'The model tracks positions in double precision.'),
    P('C16', 'The C++ program and the Python package agree',
      'For the same catalogue files and parameters, the program run from a '
      'parameter file writes the same measurements as the Python package '
      'returns and saves, for every statistic and catalogue type (for a '
      'periodic box, up to the placement of its origin).',
      ['inputs', 'configurations'],
      'All statistics, catalogue types, parameters and catalogue files.',
      'No test runs the program.',
      ['src/triumvirate/main/triumvirate.cpp', S + 'src/io.cpp',
       S + 'src/parameters.cpp', S + 'src/particles.cpp', S + 'twopt.py',
       S + 'threept.py'],
      [('program workflow', S + 'main/triumvirate.cpp')],
      ['measurement files written by the program and by the package'],
      'differential oracle: recorded outputs of two front ends of the same '
      'run', 'Compared to the printed precision of the files.'),
    P('C17', 'Saved measurements hold what was returned',
      'A measurement saved to a text or binary file holds the returned '
      'values, under a file name that distinguishes statistic, multipole, '
      'form and tag, with a header that states the catalogues, mesh, scheme '
      'and normalisation used; saving neither changes what is returned nor '
      'overwrites a measurement of another multipole or form.',
      ['inputs', 'configurations', 'histories'],
      'All statistics, forms, tags, directories and file formats.',
      'Tests never look at the files written.',
      [S + 'twopt.py', S + 'threept.py', S + 'src/io.cpp'],
      [('result saving', S + 'twopt.py'), ('result saving',
                                           S + 'threept.py')],
      ['files written, results returned'],
      'offline comparison of recorded files with returned results',
      'Text files are compared to their printed precision.'),
    P('C18', 'Inputs of the caller are never changed',
      'Measurements, transforms and convolutions leave the caller\'s arrays, '
      'binnings, parameter sets, parameter dictionaries and lines of sight '
      'as they were, apart from catalogue positions, absent number densities '
      'and overridden or derived parameter entries as documented; results '
      'returned earlier never change afterwards, and parameter sets, binnings, '
      'catalogues, transforms and formulae do not follow the objects they '
      'were made from or the dictionaries they hand out.',
      ['inputs', 'histories'],
      'All public functions and sequences of calls sharing objects.',
      'Tests build fresh inputs for each call and look only at results.',
      [S + 'twopt.py', S + 'threept.py', S + 'transforms.py', S + 'winconv.py',
       S + '_arrayops.py'],
      [('copies taken before changes', S + 'twopt.py'),
       ('copies taken before changes', S + 'transforms.py')],
      ['caller-owned objects before and after calls'],
      'online state monitor: snapshots of all caller-owned objects around '
      'each call', 'Snapshots are deep copies.'),
    P('C19', 'Logarithmic Hankel transforms invert and match analytics',
      'For log-spaced samples, the Hankel and spherical Bessel transforms '
      'equal the discrete transform defined by the documentation (any order, '
      'bias, pivot, low-ringing choice, extrapolation and thread use), '
      'transforming forwards then backwards returns the samples, and '
      'functions with known transforms are reproduced.',
      ['inputs', 'configurations'],
      'All degrees, biases, pivots, sample counts, sample values and options.',
      'Tests compare two functions at a few settings.',
      [S + 'src/fftlog.cpp', S + '_fftlog.pyx', S + 'transforms.py',
       S + 'src/arrayops.cpp', S + 'src/maths.cpp'],
      [('FFTLog algorithm', S + 'src/fftlog.cpp'),
       ('transform interface', S + 'transforms.py')],
      ['transform objects of the public API'],
      'oracle on returned transforms: independent implementation, round '
      'trips and analytic pairs', 'Reference evaluated with scipy/mpmath.'),
    P('C20', 'Array extrapolation, reshaping and resampling are exact',
      'Extrapolating constant, linear, log-linear or power-law samples '
      'extends them by the same law and keeps the original samples; '
      'reshaping flattened pair tables gives the symmetric or full matrix '
      'they came from; resampling keeps end points and reproduces smooth '
      'samples; unsuitable arrays are rejected.',
      ['inputs'],
      'All array lengths, spacings, signs, shapes, extension lengths.',
      'Tests extrapolate one short array each.',
      [S + '_arrayops.py', S + 'transforms.py', S + 'src/arrayops.cpp'],
      [('extrapolation', S + '_arrayops.py'),
       ('extrapolation', S + 'src/arrayops.cpp')],
      ['arrays returned'],
      'oracle on returned arrays: closed-form laws on generated arrays',
      'Closed forms only.'),
    P('C21', 'Window convolution follows its formulae',
      'Convolved multipoles are the coefficient-weighted sums of products of '
      'window and model multipoles stated by the formulae, coefficients equal '
      'those of the coupling of harmonics, the integral constraint is the '
      'window-weighted mean, convolution is linear in the model so that its '
      'matrix reproduces it, and window objects keep their samples through '
      'loading, selection, resampling and saving.',
      ['inputs', 'configurations', 'histories'],
      'All formulae, windows, sample points, models, matrix options and '
      'numbers of processes.',
      'Tests run one named formula on one smooth window.',
      [S + 'winconv.py', S + '_mpitools.py', S + 'transforms.py'],
      [('convolution classes', S + 'winconv.py')],
      ['objects returned by the public API'],
      'oracle on returned results: direct evaluation of the formulae on '
      'generated windows and models', 'Interpolation error is avoided by '
      'polynomial samples or shared sample points.'),
    P('C22', 'Repeated use does not exhaust memory',
      'A long sequence of measurements, transforms and failures in one '
      'process releases what it allocates: memory in use does not grow with '
      'the number of calls, and the reported mesh memory returns to zero.',
      ['histories', 'fault_sequences'],
      'All sequences of public calls, including rejected ones.',
      'Each test process makes few calls and never looks at memory.',
      [S + 'src/field.cpp', S + 'src/particles.cpp', S + 'src/monitor.cpp',
       S + '_field.pyx', S + '_fftlog.pyx'],
      [('destructors and memory accounting', S + 'src/field.cpp')],
      ['allocator statistics and LeakSanitizer reports'],
      'LeakSanitizer on the C++ program and an allocator-statistics monitor '
      'over long call sequences', 'Growth is judged over repeated rounds '
      'of the same calls.'),
    P('C23', 'Automatic box and mesh choices contain the catalogue',
      'When box size or mesh number is left to be derived from an expansion '
      'factor and a cutoff, the derived box is the catalogue extent times '
      'that factor in every axis, the derived mesh resolves the cutoff with '
      'the smallest even number, every particle is inside the box, and a '
      'catalogue that does not fit is reported.',
      ['inputs', 'configurations'],
      'All catalogue extents, expansion factors, cutoffs and statistics, in '
      'the package and the program.',
      'Tests always give box and mesh explicitly.',
      [S + 'parameters.pyx', S + 'twopt.py', S + 'threept.py',
       S + 'src/parameters.cpp', S + 'main/triumvirate.cpp'],
      [('derivation of mesh number', S + 'parameters.pyx'),
       ('derivation of box size', S + 'twopt.py')],
      ['parameter sets and results of the public API'],
      'oracle on derived parameters and on measurements made with them',
      'Restated from documentation.'),
    P('C24', 'Work division, logging and progress never lose items',
      'Dividing tasks among processes assigns each task to exactly one '
      'process with sizes differing by at most one; log records carry their '
      'message and elapsed time at every verbosity; progress reporting '
      'reaches completion and never changes results.',
      ['inputs', 'configurations', 'schedules'],
      'All task and process counts, verbosity levels and progress settings.',
      'Tests try one allocation and one log line.',
      [S + '_mpitools.py', S + 'logger.py', S + 'src/monitor.cpp'],
      [('task allocation', S + '_mpitools.py'), ('logging', S + 'logger.py')],
      ['returned allocations, log output'],
      'online assertions over enumerated and generated divisions and '
      'recorded logs', 'Pure functions enumerated over a grid of sizes.'),
    P('C25', 'Wisdom, planning and build flavour do not alter results',
      'Results are the same whichever transform planner is chosen, whether '
      'wisdom is absent, imported, exported or unusable, and whether the '
      'program was built with or without multithreading.',
      ['configurations', 'histories', 'fault_sequences'],
      'All planner settings, wisdom files (valid, missing, damaged) and both '
      'build flavours.',
      'Tests use one planner and no wisdom.',
      [S + 'src/field.cpp', S + 'parameters.pyx', S + 'src/parameters.cpp',
       S + 'main/triumvirate.cpp'],
      [('planning and wisdom', S + 'src/field.cpp')],
      ['results and files written'],
      'differential oracle over recorded results of differently planned and '
      'built runs', 'Compared to round-off.'),
    P('C26', 'Application tools process measurement and parameter files '
      'faithfully',
      'Exchanging the axes of a saved three-point measurement gives the file '
      'of the exchanged degrees with every row kept; combining numbered '
      'files gives exactly the vectors of the chosen numbers and components '
      'in order; a parameter file made from a template differs from it in '
      'just the changes asked for and is accepted with those values; and '
      'listed window convolution coefficients are the non-zero ones, '
      'exactly. Inputs that do not fit raise errors without writing files.',
      ['inputs', 'configurations', 'histories'],
      'All three-point statistics, degrees, forms and file names; any set of '
      'numbered files, ranges and components; any template and changes.',
      'No test runs the tools under apps.',
      ['apps/io/exchange_coord_axes.py', 'apps/io/comb_data_vectors.py',
       'apps/io/gen_param_file.py', 'apps/calculators/gen_wc_coeffs.py'],
      [('exchange of axes', 'apps/io/exchange_coord_axes.py'),
       ('combination', 'apps/io/comb_data_vectors.py'),
       ('parameter files', 'apps/io/gen_param_file.py')],
      ['files read and written, messages and warnings'],
      'online assertions and offline checkers over recorded input and output '
      'files', 'Tools of external packages (nbodykit, pypower) cannot run '
      'here.'),
    P('C27', 'Explicit measurement arguments prevail over the parameter set',
      'A measurement requested with a parameter set (object or dictionary) '
      'and explicit sampling parameters, degrees, binning, form or bin '
      'index uses the explicit values in place of the entries they '
      'correspond to, and the parameter set for the rest: its result, saved '
      'header and file name are those of a complete parameter set with '
      'these values. A parameter set object takes on the values (and then '
      'means the same measurement again), a dictionary is left as it was, '
      'and incomplete or invalid requests raise ValueError.',
      ['inputs', 'configurations', 'histories'],
      'Every statistic and catalogue type, any subset of overridden entries '
      'and any way to spell their values.',
      'Tests give every value once, either way.',
      [S + 'twopt.py', S + 'threept.py', S + 'parameters.pyx'],
      [('amalgamation of parameters', S + 'threept.py'),
       ('overriding of entries', S + 'parameters.pyx')],
      ['results, saved files and parameter sets of the public API'],
      'differential oracle over recorded results of requests spelt in '
      'different ways, and online assertions on the parameter sets',
      'Results of complete parameter sets are decided by C04 to C11.'),
    P('C28', 'Files that cannot be read or written in full are reported',
      'A run of the program, or a call of the package, that cannot read an '
      'input file to its end (catalogue, parameter file) or cannot write an '
      'output file completely (results, binned vectors, used parameters) '
      'fails: the program exits with a nonzero status, the package raises, '
      'and nothing is computed from a shorter input. A run that reports '
      'success leaves files identical to those of a run without any fault.',
      ['fault_sequences', 'configurations', 'inputs'],
      'Every measurement, file, and place at which reading or writing may '
      'fail (missing, directory, full device, input/output error at any '
      'offset and pass).',
      'Tests read and write files without faults.',
      [S + 'src/io.cpp', S + 'src/particles.cpp', S + 'src/parameters.cpp',
       S + 'src/field.cpp', S + 'main/triumvirate.cpp', S + 'twopt.py',
       S + 'threept.py', S + 'catalogue.py'],
      [('opening and closing of written files', S + 'src/io.cpp'),
       ('loading of catalogues', S + 'src/particles.cpp'),
       ('saving of measurements', S + 'twopt.py')],
      ['system calls on files, exit status, exceptions and file contents'],
      'fault injection in interposed file operations, with the files of '
      'faultless runs as oracle',
      'Faults last until the end of a run; memory exhaustion is left out.'),
    P('C29', 'Special functions and array helpers of the library are accurate',
      'Over the arguments the estimators and transforms use, the library '
      'gives complex gamma and log-gamma functions, ratios of gamma '
      'functions, Wigner 3-j symbols and coupling coefficients, spherical '
      'harmonics in every direction (and over whole meshes, at the wave '
      'vectors or positions of their cells) and spherical Bessel functions '
      'to their documented accuracy; arrays are sorted, checked for linear '
      'or logarithmic spacing and for signs, and extrapolated, by the '
      'stated rule, and unacceptable arguments are refused.',
      ['inputs', 'configurations'],
      'Every argument in range, degree and order, mesh shape and array.',
      'Tests evaluate a few arguments.',
      [S + 'src/maths.cpp', S + 'src/arrayops.cpp'],
      [('spherical harmonics', S + 'src/maths.cpp'),
       ('extrapolation', S + 'src/arrayops.cpp')],
      ['values returned by the library'],
      'differential oracle: values returned by the sanitised library against '
      'independent high-precision evaluations',
      'Bessel functions are interpolated by design, and compared as such.'),
]
