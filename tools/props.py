"""The one place where properties and checks are declared; tools/gen.py writes
properties.jsonl, MANIFEST.json and checks/meta.json from it."""

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, module, rule, level_note,
         technique, assumptions=(), shards=6, mpi=None, observe=(), state=(), hook=None, only_prop=False):
    P.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(quant.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=list(observe), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     hook_needed=hook),
        module=module, rule=' '.join(rule.split()), level_note=' '.join(level_note.split()),
        technique=technique, assumptions=list(assumptions), shards=shards, mpi=mpi))


S = 'src/pysimulators/'
F = 'src/flib/'

prop(
    'C01', 'Sparse matrix-vector products equal their mathematical definition',
    '''For every supported sparse storage (fixed-size rows or columns, plain, block, 2-d rotation,
    3-d rotation), index type and value type, the product by a vector or by a multi-dimensional
    array, the product by the transpose, the accumulation into an existing output and the dense form are those
    of the matrix defined by the stored entries, within the rounding of the types involved;
    entries with a negative index contribute nothing. Operands are never modified, and sizes that do not fit are refused.''',
    ['inputs', 'configurations'],
    '''every storage format, index type (signed and unsigned), value type, block shape, number of
    entries per row (0 included), entry pattern (missing, duplicated, sorted), input type, trailing
    dimension, memory layout (strided, Fortran), output mode (allocated, given, accumulated)''',
    '''The tests use a few tiny matrices with hand-written indices, one block shape at a time; native
    kernels are selected by type, size and trailing dimension, and the pure-Python code only runs for
    the combinations that tests do not compare with an independent reference.''',
    [S + 'sparse.py', F + 'sparse.f90.j2'],
    [('matrix-vector kernels', F + 'sparse.f90.j2'), ('kernel dispatch and Python evaluation', S + 'sparse.py')],
    'c01',
    '''Random matrices drawn over format x types x shape x entry pattern; a case is non-trivial when an
    oracle compared at least one product with the extended-precision reference, and distinct by its generated parameters.''',
    '''Every executed product is compared, element by element, with an independent reference evaluated in extended
    precision under an a-priori rounding bound; coverage is that of the generated workload.''',
    'runtime monitoring: differential oracle (extended-precision reference) on the compiled code',
    ['numpy long double arithmetic (reference)'],
)

prop(
    'C02', 'The transpose of every linear operator is its adjoint, and algebra keeps values',
    '''For every linear operator (sparse, pointing matrix, on-the-fly, restricted, integration, truncated-exponential
    convolution, roll, coordinate rotations) applying the transpose is applying the adjoint: its matrix is the transposed
    matrix, and transposing twice gives the operator back. Compositions, sums and scalings
    (including those simplified to a diagonal operator, such as the transpose times a projection) give the result of applying their factors one after the other,
    and in-place, given-output and accumulated evaluations give the values of a plain one.
    The declared properties (square, symmetric, orthogonal, involutary, idempotent) are true of the observed matrix.''',
    ['inputs', 'configurations'],
    'every operator, its parameters, domain shapes, value types and input vectors; every simplification of an expression',
    '''The tests check selected transposes on fixed small inputs; the simplification rules and
    in-place paths depend on types, shapes and flags.''',
    [S + 'operators.py', S + 'sparse.py', F + 'module_operators.f90.j2', F + 'operators.f90.j2', F + 'sparse.f90.j2'],
    [('transpose and composition rules', S + 'sparse.py'), ('transpose methods and rules', S + 'operators.py'),
     ('convolution kernels', F + 'module_operators.f90.j2')],
    'c02',
    '''Random operators of ten families; the matrix of each is observed through its action on the canonical basis and compared
    with that of its transpose, and dot products are compared for random vectors. Non-trivial: at least one comparison made; distinct by generated parameters.''',
    'Adjointness is decided on the observed matrices, not on the code; reach is that of the generated operators.',
    'runtime monitoring: online adjointness, algebra and flag monitors on executed operators',
    ['numpy long double arithmetic (reference)'],
)

prop(
    'C03', 'Restricting a projection, its kernel and its coverage follow its matrix',
    '''Restricting a projection to the pixels selected by a boolean mask (True: kept), or corestricting it to selected detectors or samples,
    gives the projection whose matrix is made of the selected columns or rows, in order, whether done in
    place or not, once or several times, and without changing the original when not done in place. The mask of
    pixels in the kernel of a projection is true exactly for the pixels without non-zero stored
    element, for any accumulation operation and output layout. The coverage and the
    back-projection with coverage are the sums over the stored elements of each pixel, for given and accumulated outputs; accumulating without output and outputs that do not fit are refused.''',
    ['inputs', 'configurations'],
    '''every projection format, index and value type, block shape, pixel shape, mask, sequence of restrictions, output layout and operation''',
    '''The tests use a handful of fixed matrices and masks; the native kernels rewrite bytes in place at computed
    offsets that depend on every type and shape.''',
    [S + 'sparse.py', S + 'operators.py', F + 'sparse.f90.j2'],
    [('restriction and corestriction', S + 'sparse.py'), ('kernel, coverage', S + 'operators.py'), ('native kernels', F + 'sparse.f90.j2')],
    'c03',
    '''Random projections and masks; the matrix of the restricted operator is observed by applying it to the canonical
    basis. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided on observed matrices and counts; coverage is that of the generated workload.',
    'runtime monitoring: differential oracle on executed restrictions and kernels',
)

prop(
    'C04', 'Pointing-matrix projections follow their stored elements',
    '''The projection, back-projection (plain, weighted by the samples, masked), products of the transpose and
    the projection, masks of unobserved pixels, pixel intersection tests, sample masking, validity test and packing of a pointing matrix are those of the matrix
    defined by its (pixel, weight) elements, a negative pixel ending the list of a sample, for any output (allocated, given, strided, accumulated). Packing to the non-masked pixels renumbers them in order and keeps the projection of these pixels.
    Operators that compute their pointing matrix on the fly and share its storage give, in any sequence of calls and after a failed computation, what an operator that stores it gives, and projections give their outputs the requested class and attributes, their derived units and the unit of the input multiplied (divided if transposed) by theirs.''',
    ['inputs', 'histories', 'configurations'],
    '''every matrix shape, number of pixels per sample, padding, zero weight, pixel shape, mask, output layout; every call sequence over operators sharing storage''',
    '''These operators are nearly untested: several of them could not even run before this work; the kernels treat padding, zero weights and
    one-pixel matrices by separate paths.''',
    [S + 'operators.py', F + 'module_pointingmatrix.f90', F + 'pointingmatrix_old.f90'],
    [('projection operators', S + 'operators.py'), ('kernels', F + 'module_pointingmatrix.f90'), ('wrappers', F + 'pointingmatrix_old.f90')],
    'c04',
    '''Random pointing matrices (padded rows) and call histories; every result compared with the dense matrix of the elements in extended precision.
    Non-trivial: at least one comparison; distinct by generated parameters and history.''',
    'Decided by comparison with the dense matrix on every executed call; reach is that of the generated workload.',
    'runtime monitoring: differential oracle and call-history monitor',
)

prop(
    'C05', 'Polygon integration weighs each pixel by the exact intersected area',
    '''For every sequence of simple polygons (convex or not, any orientation, degenerate, aligned with the pixel edges,
    partly or fully outside the scene), the integration operator of a 2-d scene has, for each polygon, one stored element per
    intersected pixel, whose weight is the area of the intersection within the rounding of the value type, and nothing else but trailing padding: the weights of a polygon inside the scene sum up to its area.
    The result does not depend on the given number of columns, the reported minimum number of columns and outside flag are those of the polygons, and the polygons are not modified.
    The operator and its transpose have the shapes of the scene and of the polygons.''',
    ['inputs', 'configurations'],
    '''every grid shape, polygon shape and position, number of vertices, value and index type, given number of columns, memory layout of the vertices''',
    '''The tests integrate a few axis-aligned squares; the kernel clips each edge in up to six branches, and each of them only
    shows for certain slopes and positions.''',
    [S + 'packedtables/scenes.py', F + 'projection.f90.j2', F + 'module_geometry.f90.j2', F + 'module_math.f90.j2'],
    [('integration operator', S + 'packedtables/scenes.py'), ('polygon kernel', F + 'projection.f90.j2'), ('edge clipping', F + 'module_geometry.f90.j2')],
    'c05',
    '''Random scenes and polygons of ten styles; the stored elements are compared with the areas obtained by half-plane clipping
    in extended precision. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided by an independent clipping algorithm on every polygon and pixel; reach is that of the generated polygons.',
    'runtime monitoring: differential oracle (extended-precision clipping) and conservation monitor',
)

prop(
    'C08', 'Tables follow their list of selected elements through any history',
    '''The selection (by mask, integers, flat or per-dimension slices, Ellipsis), ordering and dimension of a packed table define an ordered list of elements, and indexing,
    splitting, copying, attribute setting and reading keep the index, the length, the packed attributes, the unpacked attributes and the removed mask
    equal to those of that list, without changing the table they are derived from. Packing and unpacking are inverse of each other on the selected elements and set the missing value
    elsewhere, for any type, trailing dimension, given output and layout; they leave their input unchanged and split parts are balanced, disjoint and in order.
    Selections, outputs and attributes that do not fit are refused.''',
    ['inputs', 'histories'],
    '''every shape, number of dimensions, selection, ordering, value type, memory layout and sequence of operations''',
    '''The tests enumerate short selections of tiny tables from their construction only; the index is kept in three forms (all, slice, array) that are combined by each
    further selection, and errors show for negative, reversed, empty or out-of-range slices after a given history.''',
    [S + 'packedtables/core.py'],
    [('selection and index', S + 'packedtables/core.py'), ('pack and unpack', S + 'packedtables/core.py')],
    'c08',
    '''Random tables and histories of operations run beside a model that is a plain list of indices; every observable of every table alive is compared after each step.
    Non-trivial: at least one comparison; distinct by generated parameters and history.''',
    'Decided by comparison with the model after every step; reach is that of the generated histories.',
    'runtime monitoring: model-based history monitor',
)

prop(
    'C16', 'Image tools follow their definitions for any shape, centre, scale and type',
    '''Distance and squared distance arrays, circular apertures, Gaussian and Airy beams, four-quadrant phase masks, radial profiles, integrated profiles and two-dimensional power spectra follow
    their documented definitions (zero-based (x, y) centre, default centre, pixel scale, strict upper boundary of an integrated profile) for any number of pixels, centre (inside, outside, fractional), scale and data type; integer distances are truncated.
    Beams have a unit sum or integral; each valid pixel is counted in one radial bin, invalid (NaN) ones in none, and an empty bin is NaN; power spectra verify Parseval's theorem, and their profile is centred on the null frequency.
    Inputs are not modified and a given output holds the result, with the unit of the distance scale.''',
    ['inputs'],
    '''every shape, centre, scale (scalar, per axis, with unit), value type, bin, number of bins, memory layout''',
    '''The tests use one or two shapes per function, even sizes, and never an empty bin, an invalid pixel, an integer aperture or three dimensions.''',
    [S + 'datautils.py', F + 'datautils.f90.j2', F + 'module_math.f90.j2'],
    [('image tools', S + 'datautils.py'), ('kernels', F + 'datautils.f90.j2')],
    'c16',
    '''Random calls compared with the definitions in extended precision. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided by an independent evaluation of the definitions; reach is that of the generated calls.',
    'runtime monitoring: differential oracle (definitions in extended precision) and conservation monitors',
)

prop(
    'C17', 'Quantities compute with consistent units and convert without loss',
    '''Units in any notation are read and written back as the same powers, and conversions (including through local, broadcast or global derived units, and angles to solid angles)
    multiply the values by the ratio of the SI factors, go back and forth, are refused without side effects between incompatible units, and never change the operands or the unit table.
    Arithmetic, comparisons, numpy functions (also percentiles, covariances, searches, indices, those of several arrays and keywords that are quantities) and reductions give the values of plain arrays expressed in a common unit and the unit required by the operation (product, power, common one), an operand without unit adopting that of the others;
    operations in place or with a given output update the values and the unit of that output. Copies, pickles, views and parts keep the values, the unit and the derived units.''',
    ['inputs', 'histories'],
    '''every unit and notation, value type, shape and broadcasting, operand order, output, function, call by position or keyword, sequence of operations on shared arrays''',
    '''The tests use a few units and scalar values; each function goes through a table of rules written by hand, and aliasing, keywords, outputs and mixed units were hardly exercised.''',
    [S + 'quantities.py'],
    [('unit algebra and notation', S + 'quantities.py'), ('numpy protocols', S + 'quantities.py')],
    'c17',
    '''Random quantities and operations run beside plain arrays and an independent unit table. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided by comparison with the model on every executed operation; reach is that of the generated operations.',
    'runtime monitoring: model-based monitor of values and units',
)

prop(
    'C15', 'Plane geometry and layouts follow their definitions, also after selection',
    '''Grids, grids of squares, squares, rectangles, regular polygons, circles, rotations, segmented polygons, polygon surfaces and convex hulls follow their documented definitions (zero-based rows going down and columns going right,
    reflections before the rotation, the rotation before the translation, counter-clockwise vertices, signed surfaces) for any size, angle, origin, data type and number of leading dimensions;
    a given output of a rotation, shape or surface is filled, whatever its layout and even if it overlaps with the coordinates to be rotated, and inputs are otherwise unchanged.
    The centers, vertices, rows, columns and units of a layout are those of the components it selects, in its order, whatever the selections, indexing or splitting that led to it.''',
    ['inputs', 'histories'],
    '''every grid shape, spacing, filling factor, reflection, angle, origin, unit, selection, ordering, data type, memory layout and aliasing''',
    '''The tests use one angle per function and symmetrical shapes, so that a swap of reflections, rows and columns, or of the order of rotation and translation is only seen in a few of the combinations.''',
    [S + 'geometry.py', S + 'packedtables/layouts.py', F + 'geometry.f90'],
    [('shapes and rotations', S + 'geometry.py'), ('layouts', S + 'packedtables/layouts.py')],
    'c15',
    '''Random shapes, rotations, polygons and layouts compared with their definitions in extended precision. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided by an independent evaluation of the definitions; reach is that of the generated calls.',
    'runtime monitoring: differential oracle (definitions in extended precision) on generated shapes and layouts',
)

prop(
    'C18', 'FITS files hold what is saved and give it back, also across MPI processes',
    '''A FitsArray, Map or Tod saved in a FITS file (new or overwritten, by name or Path) and read back has the same values (also of integers and of images with scaled values), floating-point type, unit, derived units, header cards, and coverage, error, display origin or mask;
    the file is valid FITS with one extension per attribute, attributes given along with the file name and units set since then take precedence, saving does not change the array and no file is left open.
    When several MPI processes save their parts the file is the one of the whole array, each process reading a file gets its part with the reference pixel and size of its header adjusted, and the parts make up the whole; all of them refuse, without hanging or removing a previous file, parts of unexpected sizes or different file names.''',
    ['inputs', 'configurations'],
    '''every class, number of dimensions, shape, data type, byte order, memory layout, unit, header, optional attribute, number of processes (also more than there are rows)''',
    '''The tests save a few contiguous arrays of type float64 in a single process; the collective writing was not run at all.''',
    [S + 'datatypes.py', S + 'mpiutils.py'],
    [('save and load', S + 'datatypes.py'), ('distributed reading and collective writing', S + 'mpiutils.py')],
    'c18',
    '''Random arrays saved and read back, one process or 2 to 5 of them. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided by comparing what the package and astropy read with what was saved, on every MPI process; reach is that of the generated arrays.',
    'runtime monitoring: round-trip monitors on one process and on real MPI processes (gathered observations)',
    ['astropy.io.fits as a second reader', 'Open MPI'],
    mpi=dict(quick=[3], thorough=[2, 3, 4, 6]),
)

prop(
    'C19', 'Maps and time-ordered data keep coherent metadata through any operation',
    '''Whatever the sequence of selections, reshapings, transpositions, axis permutations, flips, rolls, copies, pickles, conversions of type or class and scalings, a FitsArray, Map or Tod keeps its unit, header cards and display origin,
    and each element keeps its own coverage, error and mask value; a result of another shape never carries attributes of the former shape.
    Copies (copy, copy.copy, deepcopy, pickle, constructor) share nothing with the original, reductions by numpy functions of masked time-ordered data skip the masked samples as np.ma does,
    attributes given to constructors and factories take precedence, and masks (also given to the constructor), headers or origins that do not fit are refused without side effects.''',
    ['inputs', 'histories'],
    '''every class, shape (empty, one-element, several dimensions), value type, memory layout, key (integers, slices, lists, booleans, new axes, ellipsis), function or method, sequence of operations''',
    '''The tests go through one indexing and one reshaping of a small array; views, permutations and copies each carry the attributes by another route of the numpy protocols.''',
    [S + 'datatypes.py'],
    [('metadata propagation', S + 'datatypes.py')],
    'c19',
    '''Random histories run beside a model made of plain arrays; every object alive is compared after each step. Non-trivial: at least one comparison; distinct by generated parameters and history.''',
    'Decided by comparison with the model after every step; reach is that of the generated histories.',
    'runtime monitoring: model-based history monitor',
)
prop(
    'C09', 'Work distributed over MPI processes is a partition of the whole',
    '''Scattering a table, layout, sampling, FITS header or acquisition over any number of processes (also more than there are elements) gives each element to exactly one process, in order, with its attributes, without changing or sharing the whole;
    gathering (also parts of any size selected by each process, and arrays with a unit) gives back the whole on every process or is refused by all, unpacked attributes hold those of all the processes, the reference pixel of a local header denotes the same world coordinates, local headers are combined only if they belong to a same image, and every (valid detector, observation) pair is distributed exactly once.
    For any arrangement of the processes along detectors and samples, the distributed acquisition model gives the parts of the observation of the whole, its transpose the whole back-projection, and the center of distributed pointings is that of all of them.''',
    ['inputs', 'configurations'],
    '''every shape, selection, ordering, attribute type, header, detector mask, number of threads, number and arrangement of processes''',
    '''The test suite runs in one process, in which everything is the identity; the tests meant for MPI use one size at a time with divisible shapes.''',
    [S + 'mpiutils.py', S + 'packedtables/core.py', S + 'acquisitions.py', S + 'packedtables/samplings.py'],
    [('headers and observations', S + 'mpiutils.py'), ('tables', S + 'packedtables/core.py'), ('acquisition', S + 'acquisitions.py')],
    'c09',
    '''Random tables, headers, detectors and acquisition models distributed over fake communicators of 1 to 100 processes and over real MPI processes. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided by putting together what all the processes observed and comparing with the whole; reach is that of the generated cases and numbers of processes.',
    'runtime monitoring: conservation and exactly-once monitors over the observations gathered from every MPI process',
    ['Open MPI'],
    mpi=dict(quick=[3], thorough=[2, 3, 4, 6]),
)
prop(
    'C10', 'Acquisition models restrict, partition and observe consistently',
    '''The operator of an acquisition model, its observations (with or without noise, in a new or given output), noise, inverse noise covariance and packing methods are those of the detectors, samples and scene pixels that it selects,
    whatever the sequence of restrictions (also after the operator of the whole or of other restrictions has been used, which they leave unchanged) and however the samples are partitioned in blocks, given or derived from the available memory.
    Splitting, iterating over and selecting parts of an instrument give its detectors in order, and mask policies keep the code of each flag; arguments that do not fit are refused.''',
    ['inputs', 'histories'],
    '''every layout, selection, ordering, block partition, memory limit, restriction of detectors, samples and pixels, sequence of restrictions and uses''',
    '''The tests never build the operator of an acquisition nor restrict one in a single process; restrictions share tables, cached operators and blocks with the whole.''',
    [S + 'acquisitions.py', S + 'instruments.py'],
    [('acquisition', S + 'acquisitions.py'), ('instrument', S + 'instruments.py')],
    'c10',
    '''Random histories of restrictions and uses of acquisition models of known coefficients. Non-trivial: at least one comparison; distinct by generated parameters and history.''',
    'Decided by comparing every object alive with the dense model; reach is that of the generated histories.',
    'runtime monitoring: model-based history monitor (dense model of the acquisition)',
)
prop(
    'C11', 'FITS world coordinates, celestial angles and headers follow their definitions',
    '''Angles between directions, barycenters, and means and extrema of angles lying within a quarter of turn (on either side of 0 too, NaN excluded) are those of the directions, and directions whose numbers differ are refused.
    Headers created from a shape, scale, position angle or CD matrix hold the type, shape and world coordinates asked for, their scales and position angle are given back, and combined headers enclose all their inputs, without margin.
    The world coordinate operators and their inverses, with 0- or 1-based pixels, apply the gnomonic projection of the header to arrays of any shape, layout or output; distortions go through their nodes, boresight rotations apply the pointing and position angle, and the areas of the pixels of maps and cubes are those of the projection.''',
    ['inputs'],
    '''every direction (poles, identical, opposite), header, scale, rotation, reference pixel, pixel origin, shape and memory layout of coordinates''',
    '''The tests use a handful of directions and headers without rotation of non-square matrices, default outputs and a single memory layout.''',
    [S + 'wcsutils.py', F + 'wcsutils.f90', S + 'packedtables/scenes.py'],
    [('headers and operators', S + 'wcsutils.py'), ('angles', F + 'wcsutils.f90')],
    'c11',
    '''Random directions, headers and coordinates compared with an independent gnomonic projection and vector algebra. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided by an independent evaluation of the definitions on every executed call; reach is that of the generated calls.',
    'runtime monitoring: differential oracle (independent projection and vector algebra) on generated coordinates and headers',
)
prop(
    'C20', 'Noise realizations and inverse noise covariances follow their spectral densities',
    '''Noise realizations have, for any number of samples, the (one- or two-sided, interpolated, or white plus 1/f) power spectral density of each detector, no mean when they are correlated, are gaussian and independent between detectors and calls,
    are proportional to the square root of the density, reproducible with the seed of NumPy, and given in new or given outputs of any layout, with any operation.
    Inverse noise covariance operators are the symmetric Toeplitz band matrices whose rows are the transform of the inverse density truncated at the correlation length, and whiten the noise; incomplete models are refused.''',
    ['inputs'],
    '''every density, sampling frequency, number of samples and detectors, correlation length, output layout''',
    '''The tests check two realizations against each other and never call the methods of the instrument with densities.''',
    [S + 'noises.py', S + 'instruments.py'],
    [('noise', S + 'noises.py'), ('instrument', S + 'instruments.py')],
    'c20',
    '''Random densities and samplings; statistics over many detectors compared at 7 standard deviations with the density asked for. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided by statistics of executed realizations and by an independent evaluation of the definitions; reach is that of the generated cases.',
    'runtime monitoring: statistical and differential oracle on generated noise models',
)
prop(
    'C12', 'Celestial transforms and pointings follow their definitions',
    '''The cartesian and spherical transforms between equatorial, galactic and horizontal (azimuth from the north towards the east) coordinates are those of the directions, for any convention and unit of the angles, date, site, shape and layout of the coordinates;
    their inverses, transposes, products (including those simplified to the identity) and scalings are those of the rotations, and unknown conventions are refused.
    Pointings keep the angles (given by position or keyword, exactly once), time (given, or derived from the period), date and site of each sample, also after selections, give their cartesian, equatorial and galactic coordinates without changing their angles, and their center is the direction of the mean of the valid samples.''',
    ['inputs', 'histories'],
    '''every direction, convention, date, site, shape and memory layout of coordinates, form of construction, mask and selection of the pointings''',
    '''The tests use a few directions at one date and site, and never read the derived coordinates of a pointing.''',
    [S + 'operators.py', S + 'packedtables/samplings.py'],
    [('transforms', S + 'operators.py'), ('pointings', S + 'packedtables/samplings.py')],
    'c12',
    '''Random directions, dates, sites and pointings compared with astropy (galactic frame, sidereal time) and vector algebra. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided by an independent evaluation of the definitions on every executed call; reach is that of the generated calls.',
    'runtime monitoring: differential oracle (independent sidereal time, frames and vector algebra) on generated coordinates',
)
prop(
    'C13', 'Operators of signals and spectra follow their definitions',
    '''The exponential response (of a common or individual non-negative, dimensionless time constant, the signal being constant before its first sample), the black body and modified black body extrapolations (of scalar or array temperatures and slopes, by frequencies or wavelengths), the power laws and the rolls along any axes give the values of their definitions,
    for any shape, type and output, and so do their transposes, inverses, scalings, chains and products by block operators.
    An operator class partitioned by the block_diagonal decorator dispatches its sequence arguments to the blocks along the chunked or stacked axis; operands are not modified and arguments that do not fit are refused.''',
    ['inputs'],
    '''every time constant, temperature, frequency, slope, offset, axis, shape, type, layout and partition''',
    '''The tests use constant signals and impulses, one reference wavelength, and two partitions.''',
    [S + 'operators.py', F + 'module_operators.f90.j2'],
    [('operators', S + 'operators.py'), ('response', F + 'module_operators.f90.j2')],
    'c13',
    '''Random operators and inputs compared with the definitions in extended precision. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided by an independent evaluation of the definitions on every executed call; reach is that of the generated calls.',
    'runtime monitoring: differential oracle (definitions in extended precision) on generated operators',
)
prop(
    'C22', 'Healpix operators and scenes, grid scenes and beams follow their definitions',
    '''The Healpix operators convert between pixel numbers and cartesian or spherical coordinates as healpy does, for any resolution, numbering, convention, shape and output, their inverses and products included; the smoothing operator smooths as healpy does, and the Laplacian is symmetric, local, null for constants away from the pixels of seven neighbours, and approximates the Laplacian of spherical harmonics.
    Healpix and grid scenes have the shape, arrays, pixel transforms and indexing of their definition, those of the FITS header for SceneGrid.fromfits, and the CMB conversion follows the Planck law or its derivative.
    Gaussian and uniform beams have the values, solid angles and maps of their definition; operands are not modified and invalid arguments are refused.''',
    ['inputs'],
    '''every resolution, numbering, convention, direction, shape, kind of scene, frequency, temperature and beam width''',
    '''The tests use one resolution, a few directions, and no scene, CMB conversion or beam solid angle.''',
    [S + 'interfaces/healpy/operators.py', S + 'interfaces/healpy/scenes.py', S + 'packedtables/scenes.py', S + 'beams.py'],
    [('operators', S + 'interfaces/healpy/operators.py'), ('scenes', S + 'interfaces/healpy/scenes.py'), ('grid', S + 'packedtables/scenes.py'), ('beams', S + 'beams.py')],
    'c22',
    '''Random operators, scenes and beams compared with healpy's public functions, astropy and the definitions in extended precision. Non-trivial: at least one comparison; distinct by generated parameters.''',
    'Decided by an independent evaluation on every executed call; reach is that of the generated calls.',
    'runtime monitoring: differential oracle (healpy, astropy, definitions) on generated operators, scenes and beams',
)
prop(
    'C07', 'Calls into the compiled code never touch memory that is not theirs',
    '''Whatever the sizes, shapes, types, memory layouts and values (not-a-number, infinite, empty, out of the map) of the arrays given
    to the documented functions, operators and methods, the compiled routines only read and write inside the arrays they are handed (not around a part of a larger array, not in a read-only one) and
    execute no operation of undefined behaviour: an argument whose size or type does not fit (an output, a mask, a vector,
    a place holder) is refused with a Python exception, and the process never dies.''',
    ['inputs', 'configurations'],
    '''every public entry point that reaches the extension, over argument sizes (right, empty, too short, too long, other number of dimensions),
    types, layouts (strided, reversed, Fortran, read-only) and values; stored indices of matrices are those of valid matrices''',
    '''An overrun of a few bytes lands in the slack of an allocation and changes nothing that a test looks at; whether it happens depends on the sizes
    given, on which of the type-specific kernels is selected, and on the number of threads.''',
    [S + 'sparse.py', S + 'operators.py', S + 'datautils.py', S + 'geometry.py', S + 'wcsutils.py', S + 'packedtables/scenes.py',
     F + 'sparse.f90.j2', F + 'module_pointingmatrix.f90', F + 'pointingmatrix_old.f90'],
    [('sizes handed to the kernels', S + 'sparse.py'), ('pointing matrix calls', S + 'operators.py'), ('images', S + 'datautils.py')],
    'c07',
    '''Native calls executed under AddressSanitizer, UndefinedBehaviorSanitizer and gfortran -fcheck=bounds, each handed exact-size copies of its
    arrays so that every overrun meets a red zone; distinct by routine and shapes, types and layouts of the arguments.''',
    '''The extension is compiled from the current tree with the three instrumentations; the workloads of the other checks and hostile calls
    run on it, with a deliberate overrun first to show that the monitor is alive.''',
    'sanitizers: AddressSanitizer, UndefinedBehaviorSanitizer and Fortran bound checks on the compiled extension',
    ['the f2py wrappers, NumPy and libgfortran themselves are not instrumented (their heap accesses through intercepted functions are)'],
)
prop(
    'C06', 'Results depend neither on the number of threads nor on their interleaving',
    '''Every computation of the package gives, whatever the number of threads the compiled code uses and the order and speed at which they run,
    the result it gives on one thread: bit for bit where nothing is accumulated, and to the rounding of a reordered sum where contributions
    to a same element are added. No two threads access the same memory without synchronisation when one of them writes.''',
    ['schedules', 'inputs', 'configurations'],
    '''every compiled routine reached from the public interface, its type-specific variants, the team size (1 to 16, more threads than elements included), the
    order in which the members run, delays around critical sections and chunks of work, and inputs where many rows share their column''',
    '''The tests run with whatever number of threads the machine has and compare with a tolerance on tiny matrices; a lost update needs two threads
    to meet on an element.''',
    [F + 'sparse.f90.j2', F + 'module_operators.f90.j2', F + 'operators.f90.j2', F + 'module_pointingmatrix.f90', F + 'datautils.f90.j2',
     F + 'projection.f90.j2', F + 'geometry.f90', F + 'wcsutils.f90', S + 'operators.py', S + 'sparse.py'],
    [('parallel regions', F + 'sparse.f90.j2'), ('pointing matrices', F + 'module_pointingmatrix.f90')],
    'c06',
    '''A case is one call repeated on one thread and on 2 or 3 perturbed teams; non-trivial when it entered a parallel region, distinct by its generated parameters;
    the distinct interleavings are hashes of the order of critical sections, chunks and ends of the members.''',
    '''ThreadSanitizer on the extension compiled from the current tree, running on an OpenMP runtime built for this check that the detector sees through,
    and the comparison of perturbed teams with one thread; a deliberate race first shows that the detector is alive.''',
    'runtime monitoring: ThreadSanitizer race detection and differential oracle under perturbed thread schedules',
    ['the OpenMP runtime of the check stands for libgomp (same entry points, no barrier in the extension)'],
)
prop(
    'C23', 'MADMAP1 observations are read and modelled exactly as they were written',
    '''Whatever the byte order, the numbers of blocks, detectors, samples, pixels per sample and correlations, the names of the files, the other files
    beside them, the missing value and the extension of the map mask, MadMap1Observation returns the time-ordered data, the blocks, the map mask and the filters that
    were written. Its projection and the transpose are those of the pixel indices and values in the file, and its inverse noise operator is, in each block and for each
    detector, the band Toeplitz matrix of that block and detector's own filter. Files of inconsistent sizes, missing filters and masks without data are refused.''',
    ['inputs', 'configurations'],
    '''1-103 detectors, 1-101 blocks of different lengths, 0-4 pixels per sample (unseen ones included), 0-4 correlations, both byte orders, masks of several types and missing values
    (none, NaN, infinity, numbers), names with special characters, files with similar names''',
    '''The tests read one set of filters in two byte orders, and one observation of a single block whose test is expected to fail.''',
    [S + 'interfaces/madmap1.py', S + 'operators.py'],
    [('reader', S + 'interfaces/madmap1.py')],
    'c23',
    '''Observations written byte by byte by the check and read by the package; distinct by numbers of detectors, blocks, samples, pixels and correlations, byte order, mask and names.''',
    '''What is read is compared exactly with what was written, the projection and its transpose with sums over the written pixels, the inverse noise with dense Toeplitz products.''',
    'runtime monitor: offline comparison with the contents of the files written',
    ['observations distributed over several processes are not supported by the package'],
)
prop(
    'C21', 'What is displayed is the data, and displaying does not modify it',
    '''imshow and imsave of FitsArray, Map and Tod hand to the plotting library the values of the array (their modulus if complex, of any real type) clipped
    to the percentiles of the valid ones, which are also the colour range, and NaN for the masked, uncovered and non-finite elements; arguments such as the origin and
    the interpolation are honoured and the array, its coverage and its mask are not modified. plot_tod and the plot method of pointings and acquisitions draw each timeline or
    the path of the valid pointings over the requested map, the plot method of layouts and instruments draws the outline (or center) of every selected detector, through the
    requested transform and with its colours, and ds9 is given the array, its header and messages. The object2image and image2object transforms of an Imager are inverse of each other.''',
    ['inputs', 'configurations'],
    '''arrays of several types with NaNs, infinities, masks and coverages, percentiles, layouts with removed detectors, lists of colours''',
    '''The plotting libraries are not even installed where the tests run.''',
    [S + 'datatypes.py', S + 'datautils.py', S + 'packedtables/layouts.py', S + 'instruments.py'],
    [('images', S + 'datatypes.py'), ('timelines', S + 'datautils.py'), ('layouts', S + 'packedtables/layouts.py')],
    'c21',
    '''Displays executed with stand-ins of matplotlib, kapteyn and pyds9 that record what they are given; distinct by class, shape, type, mask, coverage, percentiles and keywords.''',
    '''The recorded calls (images, lines, polygons, messages) are compared with the clipped and masked values, samples and outlines computed from the data.''',
    'runtime monitor: trace of the calls received by stand-ins of the plotting libraries',
    ['matplotlib, kapteyn and pyds9 are replaced by recorders'],
)

NOTES = {}
