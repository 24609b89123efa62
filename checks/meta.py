"""Per-property configuration of the checks: level, what is proved, what is bounded, what is trusted."""
P = "contract-based deductive verification of the real functions (verification conditions from their AST, discharged by z3/cvc5)"
PB = P + "; bounded run-time evaluation of the same contracts for the rest"
B = "run-time evaluation of the contracts on the real code (bounded stand-in: the functions are outside the prover's reach)"


def proof(note, trusted=(), assumptions=(), exec_s=60):
    return dict(level="proof", technique=PB, level_note=note, trusted=list(trusted), assumptions=list(assumptions), exec_s=exec_s)


def bounded(note, exec_s=60):
    return dict(level="exploration", technique=B, level_note="bounded: " + note, exec_s=exec_s)


H5 = "h5py: Dataset.read_direct copies the rows of source_sel to the rows of dest_sel"
H5P = "h5py: File opens one handle, which is true until closed; indexing a dataset gives its rows"
UNYT2 = "unyt: products, quotients and powers of units denote those of what they stand for"
NUMBA = "numba runs the function it decorates with its Python semantics"

SYMPY = "sympy: products, quotients, powers and substitution denote those of the values; equal expressions denote the same"
UNYT = "unyt: inherited methods change values by the unit conversion factor only and drop the frame, except view, which keeps both"

HOMOG = "numpy: a function of the table scales with its operands as the table of checks/ufuncs.py says (homogeneity)"

META = {
    "C01": proof("proved for every input: expand_ranges, get_chunk_ranges, extract_ranges_from_chunks, both read strategies and the "
                 "dispatch between them, 1-D and 2-D; bounded: byte order conversion, h5py itself",
                 [H5, NUMBA], ["to_native_byteorder_inplace keeps the values (evaluated at run time only)",
                               "fewer than 2^31 ranges and chunks"]),
    "C02": proof("proved for every input: ranges_from_array, expand_ranges, their round trip, both conversions of SWIFTMask", [NUMBA]),
    "C03": proof("proved: _generate_cell_mask covers every particle of the region (all periodic images), rejects bad regions; "
                 "_update_range_masks selects exactly the rows of the cells; bounded: _unpack_cell_metadata, _sanitize_region"),
    "C04": proof("proved: constrain_spatial, constrain_property, constrain_index, constrain_indices against the contracts of the "
                 "methods they call; bounded: whole sequences on files",
                 ["h5py: indexing a dataset gives its rows"]),
    "C05": proof("proved for every number of cells, ranges and rows: the count of a cell is the number of its selected rows, offsets are the running "
                 "sum, together they describe the new file; for arbitrary contents, sizes and selections: every dataset, attribute, link, header entry "
                 "and group of the new file; bounded: the names in the file (four layouts)", [H5P, H5], ["SWIFT: cells partition the rows, in order"]),
    "C06": proof("proved for every pair of expressions, scale factors and exponents (known or not): +, -, *, /, **, create, a_factor, "
                 "redshift, ==, != and the orderings; bounded: floating point", [SYMPY]),
    "C07": proof("proved for every array, factor, state and unit: each conversion method scales, marks, keeps or refuses, and leaves the "
                 "original alone; bounded: scalars, integer types, floating point", [SYMPY, UNYT]),
    "C08": proof("proved for every array, factor, frame and whatever unyt's own function returns: the preparation of arguments, every ufunc of "
                 "the table, reductions, powers, output arrays, and each array function: operands brought to one frame, the factor of the "
                 "result, refusals; bounded: values of numpy itself, the table of homogeneity, floating point", [SYMPY, UNYT, HOMOG], exec_s=60),
    "C09": proof("proved for every array and whatever unyt returns: each deriving method, view, T, __array_finalize__ and pickling keep "
                 "units, frame, factor, flag and compression, as a quantity exactly for scalars; bounded: values, index expressions, chains",
                 [UNYT]),
    "C10": proof("proved for every field, mask, state of the object and of the file: the property functions of a field (values, unit, factor, "
                 "frame, flag from its own attributes, lazily, once), setter, deleter, group attributes, the attribute readers; bounded: "
                 "how properties are attached to groups, text attributes, values on generated snapshots", [H5P, UNYT2]),
    "C11": proof("proved by induction over histories: HandleProvider's invariant is established and kept by every operation from every state, "
                 "with arbitrary code in the guarded block; open_path_or_handle, load, mask, validate_file, write_subset, the constructors of "
                 "all handle-owning classes, lazy readers; bounded: the bodies of metadata helpers (they open nothing: checked syntactically)",
                 [H5P], ["constructors that fail leave their own handle to the garbage collector"]),
    "C12": proof("proved for every number of particles, unit and exponent: what is accepted and kept on assignment, completeness and equal lengths, "
                 "consecutive ids over all types, header, units, data and attributes of every field, nothing opened before everything is consistent; "
                 "bounded: h5py, floating point, reading the file back", [H5P, UNYT2, "numpy.unique: as many elements as distinct values"]),
    "C13": proof("proved for every particle set and resolution: bounds of every write, the exact contribution of a particle to a pixel "
                 "for every backend, kernels; bounded: floating point", [NUMBA]),
    "C14": proof("proved for every particle set, height and resolution: bounds of every write, the exact contribution of a particle to "
                 "a pixel; bounded: nearest-neighbour slice (scipy tree), floating point", [NUMBA]),
    "C15": proof("proved for every particle set and resolution: bounds of every write, the exact contribution of a particle to a voxel; "
                 "bounded: floating point", [NUMBA]),
    "C16": proof("proved for every number of particles and workers: the workers' ranges partition the particles, nothing shared is "
                 "written, the shape is the serial one; bounded: floating-point summation order", [NUMBA]),
    "C17": proof("proved for every particle and kernel no wider than the box: each image that reaches the picture is deposited exactly "
                 "once; bounded: floating point", [NUMBA]),
    "C18": proof("proved for every particle, region, box, rotation, depth, mask, frame and resolution over the reals: what is handed to a backend is the "
                 "position relative to the region in units of its wider side, rotated about the centre, moved by whole boxes into the box when "
                 "periodic; exactly the particles of the mask that have an image within the depth are handed over; box, height of a slice, smoothing "
                 "length and number of pixels scaled alike; no field of the dataset is changed; the picture has the units, scaling and frame of the "
                 "field per area (volume); bounded: floating point, visualise_render",
                 ["unyt: an array made with a quantity as its unit counts in units of that quantity",
                  "numpy.isclose accepts equal numbers and rejects numbers that differ by more than 2 per cent"]),
    "C19": proof("proved for every non-zero vector and axis over the reals: the matrix is orthogonal, has determinant +1 and takes the "
                 "direction to the axis; bounded: floating point",
                 ["numpy.linalg.inv of an orthogonal matrix is its transpose; numpy.linalg.norm is the Euclidean norm"]),
    "C20": proof("proved: the deposit writes in bounds, one particle adds its mass to the cell of its folded, wrapped position, the parallel "
                 "variant partitions the particles; the spectrum of a deposition is, bin by bin, the mean over the modes of the bin of |overdensity|^2 in "
                 "units of the box volume, less the shot noise, at the mean wavenumber; bounded: combining several foldings, floating point",
                 [NUMBA, "numpy: fft.fftn transforms the overdensity; histogram sums its weights by bin"]),
    "C21": proof("proved for every number of particles, neighbours and frame of the box: each particle gets the scaled distance the "
                 "tree reports to its k-th neighbour, in the frame and units of the coordinates; bounded: the tree itself, floating point",
                 ["scipy.spatial.cKDTree: query(x, k=[n]) returns the distance to the n-th nearest particle in the periodic box"]),
    "C22": proof("proved for every header (keys present or not, values arbitrary): scale factor, redshift, time, box size, particle numbers, mass tables "
                 "and texts are those stored, in the units and frame of the snapshot, a group is present exactly when declared, the fields of a "
                 "group are those stored; bounded: number of types (up to eight), names (up to six characters), files of every output type",
                 [H5P, UNYT2]),
    "C23": proof("proved for every number of lines and columns and every number written in them, integer or not: one array per column, in order, integers "
                 "where all are (and fit); the data lines kept; bounded: headers (four layouts), columns with units (up to five), the text of numbers",
                 ["python: int() and float() of the text of a number give that number; str.split gives its words"]),
    "C24": proof("proved for every list of disjoint ranges, 1-D and 2-D: the slices requested are non-empty, ascending, disjoint and "
                 "cover exactly the rows, the rows come back in the order asked for; bounded: overlap rejection, byte order",
                 ["hdfstream: request_slices stores the rows of the slices, in order, in dest"]),
    "C25": proof("proved for every stored parameter set (parameters present or not): each parameter of the astropy model is the stored one, the "
                 "radiation temperature follows from the radiation density where it is not stored, none for non-cosmological runs; bounded: "
                 "neutrino masses (up to three species of multiplicity up to three, masses arbitrary), astropy itself",
                 ["astropy: w0waCDM has the parameters it is given", UNYT2]),
    "C26": proof("proved for every map and number of values: the lookup (in bounds, the right entry, first value along the first axis, nothing "
                 "written), and the call for one-dimensional arrays, lists and tuples (the latter of three values); bounded: values of several "
                 "dimensions, the blending of colours into a map, maps from images",
                 [NUMBA, "float32 products treated as real ones (the run-time part allows 1e-4 of a cell)"]),
}
CLAIMED = sorted(META)
