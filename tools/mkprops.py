import json
S='src/triumvirate/'
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={'files':[S+f if not f.startswith(('docs','deploy')) else f for f in files],'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    a['hook_needed']=None
    assert len(title)<=80,(id,len(title))
    return {'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a}
L=[]
L.append(P('D01','Measurements have the right physical dimension and weight scaling',
 "Every two- and three-point measurement, and each of its shot-noise terms, has the physical dimension its statistic is defined with (power spectrum: length cubed; bispectrum: length to the sixth; correlation functions and window functions: dimensionless under the built-in particle and mesh normalisations; sample points: wavenumber or length). Multiplying the clustering weights of both catalogues, or the systematic weights of the random catalogue, by a constant leaves every survey measurement unchanged, and no two quantities that differ in dimension or in degree in the weights are ever added, subtracted or compared while deriving them.",
 ['inputs','configurations'],'all catalogues, weights, box sizes and mesh sizes; every statistic, catalogue type and normalisation convention',
 'The tests compare a handful of fixed catalogues (unit weights, one box) against stored numbers or only check array shapes; a missing volume, contrast or weight power that equals one there is invisible.',
 ['src/twopt.cpp','src/threept.cpp','src/field.cpp','src/particles.cpp','twopt.py','threept.py'],
 [('normalisation and shot-noise amplitude routines','src/triumvirate/src/twopt.cpp, src/triumvirate/src/threept.cpp'),('FFT cell-volume and inverse-volume factors','src/triumvirate/src/field.cpp')]))
L.append(P('D02','Non-cubic boxes and anisotropic meshes are handled axis by axis',
 "For any box shape and any mesh shape, every per-axis quantity (cell size, fundamental wavenumber, cell position, wavevector, particle cell, padding, extent) is computed only from the box length, mesh number, coordinate and loop index of that same axis. The flattened index of a cell is row-major in the actual mesh shape wherever a mesh is written or read.",
 ['inputs','configurations'],'all box sizes and mesh numbers, equal or unequal along the axes; every mesh traversal',
 'Every test uses a cubic box with a cubic mesh, for which any permutation of the axes gives the same answer.',
 ['src/field.cpp','src/threept.cpp','src/maths.cpp','src/particles.cpp','src/parameters.cpp','twopt.py','threept.py','catalogue.py','parameters.pyx'],
 [('grid index and vector helpers','src/triumvirate/src/field.cpp')]))
L.append(P('D03','Meshes beyond 32-bit cell counts are indexed without overflow',
 "Whatever mesh dimensions are requested, every total cell count, flattened cell index, offset or storage size derived from a product of mesh dimensions is formed and kept in at least 64-bit arithmetic from its first product to its use. It never passes through a 32-bit intermediate.",
 ['inputs','configurations'],'all mesh dimensions whose product exceeds 2^31-1',
 'A mesh with more than 2^31 cells needs 32 GiB per field; no test can run one.',
 ['src/field.cpp','src/threept.cpp','src/maths.cpp','src/parameters.cpp','src/twopt.cpp','parameters.pxd'],
 [('widening casts before index products','src/triumvirate/src/field.cpp, src/triumvirate/src/maths.cpp')]))
L.append(P('M01','Mass assignment puts each particle weight into the right periodic cells',
 "For every particle position in the box, including positions on or within half a cell of the box faces, the nearest-grid-point, cloud-in-cell, triangular and piecewise-cubic schemes assign the particle to exactly 1, 2, 3 and 4 consecutive cells per axis, wrapped periodically and always inside the mesh, with fractions that are the scheme's window values and add up to one. The same holds on the half-cell-shifted mesh used for interlacing.",
 ['inputs','configurations'],'all particle positions in the box, all mesh numbers, all four schemes, with and without interlacing',
 'Tests only assign a few interior positions with one scheme; the wrap-around arms and the shifted mesh are hit only by particles within a cell of a face.',
 ['src/field.cpp'],
 [('per-scheme assignment routines','src/triumvirate/src/field.cpp')]))
L.append(P('M02','Interlacing applies every mesh operation to both interlaced meshes',
 "When interlacing is on, every operation that fills, rescales, offsets, transforms or releases the primary mesh does the same to the half-cell-shifted mesh before the two are combined. The combination happens once, in Fourier space, with the phase and the factor one half for every mode.",
 ['configurations','inputs'],'all catalogues and parameters with interlacing on; every field construction routine',
 'Only one interlaced configuration is ever exercised, with unit contrast, where skipping the shifted mesh is invisible.',
 ['src/field.cpp'],
 [('parallel handling of the shadow field','src/triumvirate/src/field.cpp')]))
L.append(P('M03','Transforms run only on prepared plans, in the right direction, normalised',
 "No mesh is transformed or correlated unless the transform plan and buffers it needs were created for it, and a forward transform always uses a forward plan and a backward transform a backward plan (with the matching precomputed-wisdom file and status). Every forward transform is multiplied by the cell volume and every backward transform divided by the box volume (for a band-limited field: by the number of modes in the band) exactly once.",
 ['configurations','histories'],'every construction option, wisdom and thread setting, and every call sequence inside the measurement routines',
 'Tests run without imported or exported wisdom and with one plan configuration.',
 ['src/field.cpp','src/twopt.cpp','src/threept.cpp','main/triumvirate.cpp','src/fftlog.cpp'],
 [('plan creation in constructors, plan_ini flags','src/triumvirate/src/field.cpp')]))
L.append(P('S01','Three-point data vectors keep one layout across coordinates, signal and noise',
 "For each output form (diagonal, off-diagonal, row, full, upper-triangular), sample points, mode counts, raw signal and shot noise of a three-point measurement are written to the same flattened position for the same pair of bins, every position of the data vector is written, and no write or read falls outside it. Upper-triangular and full forms are row-major in the first bin index.",
 ['configurations','inputs'],'all forms, all bin numbers and off-diagonal or row indices, all multipoles, all catalogue types',
 'Only diagonal and full forms with a few bins are run; the shape-specific branches of the other forms and multipoles are never executed.',
 ['src/threept.cpp','src/field.cpp'],
 [('shape-specific loops over bins','src/triumvirate/src/threept.cpp')]))
L.append(P('S02','Bins that contain no modes or pairs never produce undefined numbers',
 "For any binning, a bin that contains no wavevector modes or separation pairs reports a zero count at the bin centre, and every average over its modes or pairs is zero. No bin average, band-limited field or shot-noise term is ever divided by an accumulated count that may be zero.",
 ['inputs','configurations'],'all binnings (including bins narrower than the fundamental mode) and meshes',
 'Tests use bins wide enough to be populated.',
 ['src/field.cpp','src/twopt.cpp','src/threept.cpp'],
 [('zero-count guard on bin averages','src/triumvirate/src/field.cpp')]))
L.append(P('S03','Results do not depend on a data race between threads',
 "In multi-threaded builds, within any parallel region every write to memory shared between threads is atomic, a reduction, inside a critical section, or goes to a location that only one iteration can write. Stateful helpers (interpolators, progress state) are never shared between threads unless protected.",
 ['schedules'],'all thread counts and schedules',
 'A race manifests only under particular schedules; the tests run few threads on tiny meshes and would pass with most races present.',
 ['src/field.cpp','src/twopt.cpp','src/threept.cpp','src/maths.cpp','src/particles.cpp','src/arrayops.cpp'],
 [('OpenMP data-sharing clauses, atomics and criticals','src/triumvirate/src/*.cpp')]))
L.append(P('S04','Each measurement routine measures and labels the statistic it is named for',
 "Every public two- and three-point routine, and every branch of the command-line program, runs the backend of the statistic, catalogue type and normalisation it is named for, on a parameter set and binning set to that statistic and its space, hands data and random catalogues with their own lines of sight and the normalisation factor of the chosen convention to the backend, and names its output after that statistic, multipole, form and whole output tag. Settings given as arguments, zero included, replace those in the parameter set.",
 ['programs','configurations'],'all public measurement entry points and all command-line statistic and catalogue types',
 'Several entry points (window functions, 3PCF variants, the command-line program) are never executed by the tests, and those that are only compare shapes or one value.',
 ['twopt.py','threept.py','_twopt.pyx','_threept.pyx','main/triumvirate.cpp'],
 [('dispatch functions','src/triumvirate/twopt.py, src/triumvirate/threept.py, src/triumvirate/main/triumvirate.cpp')]))
L.append(P('P01','Copying a parameter set, binning or calculator preserves every setting',
 "Any copy of a parameter set, binning or special-function calculator made by the backend holds the same value in every member as the original, or an equivalent resource of its own. Nothing is dropped, swapped or shared in a way that one copy can invalidate.",
 ['programs','inputs'],'all values of all members, all copies',
 'A dropped member keeps its default, which equals the value used in the tests.',
 ['src/parameters.cpp','include/parameters.hpp','include/dataobjs.hpp','src/maths.cpp'],
 [('user-defined copy operations','src/triumvirate/src/parameters.cpp, src/triumvirate/src/maths.cpp')]))
L.append(P('P02','Each parameter key means the same setting in every reader and writer',
 "A parameter name read from a parameter file, taken from the Python parameter set, or printed back to file always refers to the same backend setting, and no reader takes the value of one parameter for another. Every parameter documented in the .ini template is read by the file reader and printed under the name the reader uses; every one documented in the .yml template reaches the backend, except those Python itself acts on.",
 ['inputs','configurations'],'all parameters and all values, in the file reader, the Python translator and the printer',
 'Tests load one file and look at a few entries; a swapped or dropped key among the rest is invisible.',
 ['src/parameters.cpp','parameters.pyx','parameters.pxd','resources/params_template.ini','resources/params_template.yml'],
 [('key tables in reader, translator, printer','src/triumvirate/src/parameters.cpp, src/triumvirate/parameters.pyx')]))
L.append(P('P03','Backends always run with the parameters the user sees',
 "Whenever a Python measurement routine, or an assignment through the parameter set, changes a parameter, the change reaches the backend parameters and is validated before any backend computation uses them, so that what is measured corresponds to the parameter values visible to the user. A parameter that is reset or left out is reset in the backend too; no parameter is updated only on one side. (Input and output path parameters, which only the command-line program uses, and a user's direct writes into a nested dictionary taken out of the parameter set are excepted.)",
 ['histories','configurations'],'all sequences of parameter assignments and measurement calls; all parameters',
 'Tests set parameters at construction and make one measurement; updates between construction and measurement are not observed from the backend side.',
 ['parameters.pyx','twopt.py','threept.py','dataobjs.pyx'],
 [('re-parse and validate after mutation','src/triumvirate/parameters.pyx')]))
L.append(P('P04','Every accepted option value is handled wherever the option is used',
 "A value that parameter validation accepts for a named option is recognised by every later decision on that option, and a value no code recognises is rejected by validation with an error. No decision on an option compares it with a value that validation never lets through, and no accepted value reaches code that leaves a needed result unset.",
 ['inputs','configurations'],'all options with a fixed set of values (statistic, catalogue, alignment, padding scale, assignment, interlacing, normalisation, binning, form, shape, FFT scheme), all accepted values',
 'Tests visit a small part of the product of option values.',
 ['src/parameters.cpp','src/field.cpp','src/threept.cpp','src/twopt.cpp','src/dataobjs.cpp','main/triumvirate.cpp','twopt.py','threept.py','parameters.pyx'],
 [('validation and dispatch chains','src/triumvirate/src/parameters.cpp')]))
L.append(P('R01','Every resource is released exactly once on every path',
 "Every buffer, transform plan, interpolator, file handle and backend object acquired by the library is released exactly once whichever path the code takes: at the latest when the owning object is destroyed, in whatever order and however often its public methods were called, or when the acquiring function returns; in the Python bindings also when a call raises. The memory and grid counters go up and down by the same amount for the same resource on every path that returns. Repeated measurements therefore neither leak nor free anything twice.",
 ['histories','programs'],'all paths through all backend routines and bindings, any number of repeated measurements',
 'Tests make few measurements and never observe memory; leaks and double counting pass unnoticed.',
 ['src/field.cpp','src/twopt.cpp','src/threept.cpp','src/particles.cpp','src/maths.cpp','src/fftlog.cpp','src/io.cpp','main/triumvirate.cpp','_twopt.pyx','_threept.pyx','_field.pyx','_particles.pyx','_fftlog.pyx','parameters.pyx','dataobjs.pyx'],
 [('destructors and explicit release calls','src/triumvirate/src/*.cpp')]))
L.append(P('R02','Backend errors surface in Python as exceptions instead of ending the process',
 "Whenever a backend routine called from Python raises an error, for any input, the caller sees a Python exception. The interpreter is never terminated by an error escaping a binding, a parallel region, a destructor or a function declared not to throw.",
 ['inputs','fault_sequences'],'all bindings and all errors any reachable backend routine can raise',
 'Tests trigger no backend error through the measurement bindings; a missing translation aborts the test process only on bad input.',
 ['_twopt.pyx','_threept.pyx','_field.pxd','_particles.pxd','_fftlog.pxd','parameters.pxd','dataobjs.pxd','src/*.cpp'],
 [('exception translation on bindings','src/triumvirate/*.pxd, src/triumvirate/*.pyx')]))
L.append(P('R03','A file that cannot be opened, read or written is always reported',
 "If a catalogue, parameter or output file cannot be opened, or a catalogue lacks required columns or has short or non-numeric rows, the program or library reports an error naming the problem before using the handle or data. It never crashes, silently measures garbage, or reports success without output.",
 ['fault_sequences','inputs'],'every file opened by the backend and command-line program; every path and permission failure; every catalogue layout',
 'Tests write to valid temporary directories and read well-formed files only.',
 ['src/io.cpp','src/particles.cpp','src/parameters.cpp','src/field.cpp','main/triumvirate.cpp','catalogue.py'],
 [('stream checks after opening','src/triumvirate/src/particles.cpp, src/triumvirate/main/triumvirate.cpp')]))
L.append(P('R04','Formatted text is read and written within bounds and with matching types',
 "Every formatted print matches its arguments in number and type, messages composed from user text never treat that text as a format, and every bounded text buffer is read with a width that fits it. This holds for log messages, error messages, parameter printing and result tables alike.",
 ['inputs'],'all strings and numbers a user can supply; every formatted input or output call',
 'Tests use short strings and values for which a mismatched format happens to print correctly; undefined behaviour is not observable from outputs.',
 ['src/io.cpp','src/monitor.cpp','src/parameters.cpp','src/particles.cpp','src/field.cpp','src/threept.cpp','src/twopt.cpp','main/triumvirate.cpp'],
 [('variadic logger and error classes','src/triumvirate/src/monitor.cpp')]))
L.append(P('R05','No computation reads an uninitialised value',
 "On every path through the backend, a local variable, buffer element or object member is given a value before it is read. This includes parameters left out of a parameter file and option branches that set nothing.",
 ['inputs','configurations'],'all paths through all backend routines, all parameter files',
 'Uninitialised reads often yield plausible values (zero) in a test process.',
 ['src/parameters.cpp','src/dataobjs.cpp','src/field.cpp','src/threept.cpp','src/twopt.cpp','src/particles.cpp','src/fftlog.cpp','src/maths.cpp'],
 [('initialisers','src/triumvirate/src/*.cpp, src/triumvirate/include/*.hpp')]))
L.append(P('Y01','Transforms, convolutions and array utilities never modify their inputs',
 "No public transform, window-convolution, extrapolation or resampling call modifies, directly or through a view, an array or mapping passed to it, so repeating the call with the same argument gives the same result. Objects documented as modified in place are the only exception.",
 ['histories','inputs'],'all arguments (contiguous arrays, views, rows of arrays) of all public functions and methods in these modules',
 'Tests call each function once on a fresh array and do not inspect the argument afterwards.',
 ['transforms.py','winconv.py','_arrayops.py','_fftlog.pyx'],
 [('out-of-place arithmetic','src/triumvirate/transforms.py, src/triumvirate/winconv.py')]))
L.append(P('Y02','Every name, attribute and call on every Python path resolves',
 "No path through the Python layer refers to a variable that is not bound on that path, an attribute its object does not have, or a call with the wrong number or names of arguments. A documented option therefore never ends in a name, attribute or argument error.",
 ['programs','configurations'],'all branches of all Python and binding functions',
 'Unexecuted branches (rare options, fallbacks, error paths) are not resolved by Python until they run.',
 ['twopt.py','threept.py','winconv.py','transforms.py','_arrayops.py','catalogue.py','fieldmesh.py','logger.py','_mpitools.py','parameters.pyx','dataobjs.pyx'],
 [('plain Python scoping','src/triumvirate/*.py')]))
L.append(P('Y03','Logging is optional and any standard logger works',
 "Every public routine behaves the same with no logger, with the package's own logger, and with any standard-library logger. No code path uses a logger without first establishing that one was given, nor relies on features only the package's logger has without a working fallback.",
 ['configurations'],'all public routines, all logging paths, logger absent / package / standard',
 'Tests pass the package logger or none at all, and only on the paths they run.',
 ['twopt.py','threept.py','catalogue.py','fieldmesh.py','parameters.pyx','logger.py'],
 [('if-logger guards and attribute fallbacks','src/triumvirate/*.py')]))
L.append(P('Y04','Results keep their labels from backend to Python to file',
 "Each entry of a returned result (bin centres, effective sample points, counts, raw signal, shot noise; for each dimension) is filled from the backend quantity of that meaning, and the printed table has exactly one column per header entry in header order, in both the Python and command-line writers. Backend measurement fields are all passed on.",
 ['programs','inputs'],'every statistic, result entry and output column',
 'Tests look at a subset of entries and never parse saved tables of most statistics.',
 ['_twopt.pyx','_threept.pyx','_field.pyx','twopt.py','threept.py','src/io.cpp','src/twopt.cpp','src/threept.cpp'],
 [('result dictionaries, header and table writers','src/triumvirate/_twopt.pyx, src/triumvirate/src/io.cpp')]))
L.append(P('Y05','Data and random catalogues stay aligned with each other and the box',
 "Any shift applied to place catalogues in the box is computed once and applied identically, axis by axis, to every catalogue of the measurement, and cached extents always correspond to the current coordinates. Positions temporarily changed to compute a normalisation are restored before use.",
 ['inputs','histories'],'all catalogues and alignments; all sequences of shifts',
 'Tests check one catalogue at a time with one alignment and do not compare separations before and after.',
 ['src/particles.cpp','src/twopt.cpp','catalogue.py','twopt.py','threept.py'],
 [('pairwise centring/padding routines','src/triumvirate/src/particles.cpp, src/triumvirate/catalogue.py')]))
L.append(P('Y06','Arrays handed to the backend match its size and layout assumptions',
 "Every array passed from Python to the backend is of the element type and memory layout the backend reads, is kept alive for the call, and has at least as many elements as the backend will access; anything else is rejected with an exception. No call lets the backend read or write past an array.",
 ['inputs'],'all arrays and sequences accepted by the public API (catalogue columns, lines of sight, transform samples)',
 'Tests pass consistent, contiguous double arrays.',
 ['_particles.pyx','_twopt.pyx','_threept.pyx','_field.pyx','_fftlog.pyx','twopt.py','threept.py','catalogue.py','src/fftlog.cpp'],
 [('typed buffers, contiguity conversions, length checks','src/triumvirate/*.pyx')]))
L.append(P('Y07','A binning object always shows the bins the backend will use',
 "After construction and after every way of setting bins, a binning object's visible scheme, range, number, edges, centres and widths all equal those the backend holds, and edges, centres and widths are rebuilt together for the same range and number. They never mix values from two settings.",
 ['histories','inputs'],'all sequences of bin-setting calls with all schemes, spaces and values',
 'Tests set bins once per object and compare a few values.',
 ['dataobjs.pyx','dataobjs.pxd','src/dataobjs.cpp'],
 [('attribute refresh after each setter','src/triumvirate/dataobjs.pyx')]))
L.append(P('Y08','Multipole indices are ordered and compared consistently',
 "Multipole indices form a strict total order that agrees with equality and hashing: for any two distinct indices of equal length exactly one precedes the other, and the order depends on every component. Sorting a set of multipoles therefore always gives the same sequence, on which stacked convolution matrices rely.",
 ['inputs'],'all multipole indices of any length',
 'Tests compare a few pairs that differ in the leading components.',
 ['winconv.py'],
 [('comparison operators','src/triumvirate/winconv.py')]))
# not applicable
L.append(P('N01','Estimators converge to the true clustering statistic',
 "For catalogues drawn from a known distribution, measured multipoles agree with the underlying power spectrum, bispectrum and correlation functions within sampling noise and discretisation error. Aliasing and window compensation remove the assignment window.",
 ['inputs'],'all catalogues and meshes','Statistical agreement over an ensemble is not visible from a few fixed catalogues.',
 ['src/field.cpp','src/twopt.cpp','src/threept.cpp'],[('estimators','src/triumvirate/src')]))
L.append(P('N02','Logarithmic Hankel transforms invert each other',
 "A forward transform followed by the backward transform recovers the input samples at the original sample points for any admissible degree, bias, pivot and extrapolation. The transform agrees with the direct integral on well-sampled functions.",
 ['inputs'],'all sample sets, degrees, biases and extrapolations','A few analytic pairs are compared.',
 ['src/fftlog.cpp','transforms.py'],[('FFTLog kernel','src/triumvirate/src/fftlog.cpp')]))
L.append(P('N03','Window convolution by matrix equals direct convolution',
 "Multiplying the generated convolution matrix with any flattened model vector equals convolving the model directly, with or without MPI, for any number of processes. Rows and columns follow the documented multipole order.",
 ['inputs','schedules'],'all models, windows, formulae and process counts','Requires MPI and large matrices.',
 ['winconv.py','_mpitools.py'],[('matrix assembly','src/triumvirate/winconv.py')]))
L.append(P('N04','Repeated runs reproduce results to rounding for any thread count',
 "Repeating a measurement with a different thread count, or the command-line program instead of the Python interface on the same inputs, changes no result beyond floating-point reordering. Only summation order may differ.",
 ['schedules','configurations'],'all inputs and thread counts','One thread count is run.',
 ['src/field.cpp','main/triumvirate.cpp'],[('reductions','src/triumvirate/src/field.cpp')]))
with open('/verif/properties.jsonl','w') as f:
    for p in L: f.write(json.dumps(p)+'\n')
print(len(L))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in L: jsonschema.validate(p,sch)
