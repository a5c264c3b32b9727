"""Genuine defects: recorded (FINDINGS) and repaired (PROPERTY_OF: subject of the fix: commit -> property)."""

FINDINGS = [
    dict(
        property='C22', key='laplacian:swapped',
        what='HealpixLaplacianOperator gives the weight 4 of the 9-point stencil to the pixels that share a vertex and 1 to those that share a side '
        '(healpy orders the neighbours SW, W, NW, N, ...): the result is 3/2 of the Laplacian. Not repaired: tests/test_healpy.py::test_healpix_laplacian '
        'asserts the current weights.',
    ),
]

PROPERTY_OF = {
    'correlated noise of detectors of different densities': 'C20',
    'noise of given density for odd numbers of samples': 'C20',
    'default correlation length of the inverse noise covariance': 'C20',
    'samplings whose start date is a scalar astropy time': 'C12',
    'period of the samplings of given time': 'C12',
    'non-scalar reference frequency of BlackBodyOperator': 'C13',
    'array-like slope in BlackBodyOperator': 'C13',
    'shapes of the blocks of operators partitioned along a new axis': 'C13',
    'compute the squared distances in more than two dimensions': 'C16',
    'do not truncate the distances of an aperture of integer type': 'C16',
    'centre the profile of a PSD on the null frequency': 'C16',
    'NaN and infinity bit patterns in module_math': 'C16',
    'NaN and infinity bit patterns in module_math_old': 'C11',
    'abscissae of the integrated profile': 'C16',
    'Quantity(..., copy=False) copies when it is required by Numpy 2': 'C17',
    'units in fmax, fmin, remainder, clip, arctan2, copysign, float_power and positive': 'C17',
    'products of the elements of a quantity': 'C17',
    'set the unit of the quantities specified as output': 'C17',
    'Numpy functions called with their quantities as keywords': 'C17',
    'Numpy functions with quantities as other keywords, such as the weights of np.average': 'C17',
    'np.cov and np.where called with a single quantity': 'C17',
    'units of the limits in np.clip': 'C17',
    'unit conversions modify the derived units of the unit table': 'C17',
    'conversion to SI of the product of different angles': 'C17',
    'data type of the distances of integer type': 'C16',
    'data type of the multi-dimensional gaussians': 'C16',
    'selection with an Ellipsis of the broadcast derived units': 'C17',
    'conversion of units with leftward broadcast derived units': 'C17',
    'scalar averages returned with their weights': 'C17',
    'unit of the broadcast derived units that become scalars': 'C17',
    'return the 1-d product from the Python fallback of FSRRotation3dMatrix': 'C01',
    'allocate one entry per block column in FSCBlockMatrix with non-square blocks': 'C01',
    'do not discard the imaginary part in sparse matrix-vector products': 'C01',
    'reduce over the computed number of pixels per sample in object2pmatrix_sharp_edges': 'C06',
    'data race on the value pointer in fsr_kernel': 'C06',
    'data race on the outside flag in matrix_polygon_integration': 'C06',
    'scale the last sample in the in-place transpose of the truncated exponential': 'C13',
    'return early for a null time constant in the truncated exponential transpose': 'C13',
    'single precision input of ConvolutionTruncatedExponentialOperator': 'C13',
    'corestriction of rotation projections by a mask over the block rows': 'C03',
    'P.T * P over extra trailing dimensions': 'C02',
    'pass the number of samples to the pointing matrix kernels': 'C04',
    'projection by an empty pointing matrix left the output unset': 'C04',
    'projection to a non-contiguous output': 'C04',
    'dtype of the pTp array': 'C04',
    'use the mask argument of get_pTx_pT1': 'C04',
    'replace the removed np.cumproduct': 'C04',
    'product of a diagonal operator and a pointing matrix projection': 'C04',
    'project to zero the samples without pixel': 'C04',
    'rotate integer coordinates and handle any output array': 'C15',
    'grids whose shape is a list': 'C15',
    'surface of polygons for any number of dimensions and output': 'C15',
    'unit of a layout grid without unit': 'C15',
    'file left open when reading a FITS file': 'C18',
    'reference pixel of the local headers when reading a distributed FITS file': 'C18',
    'collective writing of FITS files': 'C18',
    'FITS file kept open by the arrays of bytes read from it': 'C18',
    'FITS file left open when reading the derived units': 'C18',
    'coverage, error, origin and mask of the files specified by a Path': 'C18',
    'memory order of the arrays created by the FitsArray, Map and Tod factories': 'C19',
    'header, coverage, error and mask shared by the copies of a FitsArray, Map or Tod': 'C19',
    'coverage, error and mask of the rearranged and reduced maps and tods': 'C19',
    'set the mask of a 0-dimensional tod': 'C19',
    'coverage, error and mask of the rearranged 0-dimensional maps and tods': 'C19',
    'memory order of the arrays created by the Quantity factories': 'C17',
    'table modified by scattering it when a process gets all its elements': 'C09',
    'MPI-gathering of arrays that are not C-contiguous': 'C09',
    'distribute observations without valid detector or without observation': 'C09',
    'cartesian coordinates of the masked samples modified by get_center': 'C12',
    'elevation of the center of the pointings': 'C09',
    'operator of the acquisition model': 'C09',
    'operator of a restricted acquisition model': 'C10',
    'blocks and communicators of a restricted acquisition model': 'C10',
    'arguments ignored by the packing methods of the acquisition': 'C10',
    'empty blocks of an acquisition limited to a small memory': 'C10',
    'out-of-bounds write in ptp_one for samples without pixel': 'C07',
    'concurrent plain stores to the kernel flags in fsr_kernel': 'C06',
    'concurrent plain stores to the mask in pmatrix_mask': 'C06',
    'bounds of the block column matrix in the fsc_block kernels': 'C07',
    'update the square flag of restricted and corestricted projections': 'C02',
    'scaling of the coordinate transform operators': 'C02',
    'product by a sparse matrix without stored elements': 'C01',
    'restriction of a projection without stored elements': 'C03',
    'refuse the unsupported block shapes in FSRBlockMatrix': 'C01',
    'test all the components of the elements in canonical_basis_in_kernel': 'C03',
    'restriction of block projections with a single column per block': 'C03',
    'negative zeros in canonical_basis_in_kernel': 'C03',
    'non-contiguous output of canonical_basis_in_kernel': 'C03',
    'restriction by a multi-dimensional mask in the Python fallback': 'C03',
    'WCS operators with non-contiguous outputs': 'C11',
    'str2fitsheader with the current versions of Astropy': 'C11',
    'out-of-bounds accesses in angle_lonlat': 'C11',
    'angle between identical or opposite directions': 'C11',
    'FITS headers created from a CD matrix': 'C11',
    'accumulation in non-contiguous or differently typed coverages': 'C03',
    'coverage of block projections with a single column per block': 'C03',
    'kernel and coverage of projections over a multi-dimensional domain': 'C03',
    'back-projection to a non-contiguous output': 'C04',
    'stale identifier in the place holder after a failed on-fly computation': 'C04',
    'transpose of a sparse operator without rows': 'C05',
    'bounds of the normalized slices in PackedTable': 'C08',
    'selection of repeated elements in PackedTable': 'C08',
    'PackedTable.copy sets a reserved attribute': 'C08',
    'selection by decreasing slices in PackedTable': 'C08',
    'selection with an ordering of a multi-dimensional PackedTable': 'C08',
    'negative and out-of-bounds integer selections in PackedTable': 'C08',
    'selection of a multi-dimensional PackedTable by full slices': 'C08',
    'selection of a PackedTable by a tuple of one element': 'C08',
    'mask of another shape given to PointingMatrix.pack': 'C07',
    'out of bounds accesses by profile with a distant or undefined center': 'C07',
    'out of bounds accesses by the truncated-exponential convolution of no sample': 'C07',
    'out of bounds accesses by angle_lonlat with incompatible sizes': 'C07',
    'outputs of an invalid shape or layout given to get_pTx_pT1': 'C07',
    'stack overflow by profile with a large number of bins': 'C07',
    'swapped pixel indices and values of MADMAP1 observations': 'C23',
    'filters of the blocks of the MADMAP1 inverse noise operator': 'C23',
    'special characters in the names of the MADMAP1 filters': 'C23',
    'display of arrays of integers': 'C21',
    'interpolation of the display of maps without astrometry': 'C21',
    'display in an existing ds9 instance': 'C21',
    'astrometry of complex maps': 'C21',
    'spherical coordinates of pointings at a constant angle': 'C12',
    'display of the pointings of integer type or at a constant angle': 'C21',
    'display of maps with astrometry in an existing figure': 'C21',
    'floor division and divmod of quantities of different units': 'C17',
    'conversion of quantities and cubes with non-scalar derived units': 'C17',
    'refusal of local arrays that do not partition the global array': 'C18',
    'setting an attribute of a part of a table to a scalar': 'C08',
    'gathering a table or an array over the MPI processes loses its unit': 'C09',
    'gathering a distributed table hangs or mixes its elements if its parts are not balanced': 'C09',
    'table whose communicator is not a predefined one cannot be copied': 'C09',
    'gathering an array hangs or returns garbage if it does not have the size of the local table': 'C09',
    'third pointing angle given as a keyword is ignored if the others are positional arguments': 'C12',
    'local FITS headers of different types, or with missing keywords, are combined or hang': 'C09',
    'unsigned or scaled arrays are corrupted when saved by several MPI processes': 'C18',
    'coverage and back-projection accumulated without output return uninitialised values': 'C03',
    'header and derived units given along with the name of a FITS file are ignored': 'C18',
    'dimensionless array is saved with the unit of its header': 'C18',
    'mask whose shape is not that of the time-ordered data is accepted by the constructor': 'C19',
    'selection by integers other than int64, or by slices along with arrays, is refused': 'C08',
    'scalar boolean or floating-point number is accepted as the index of an element': 'C08',
    'percentiles and quantiles of a quantity lose its unit': 'C17',
    'units lost by numpy functions that may return several quantities': 'C17',
    'covariance of quantities of different units': 'C17',
    'numpy functions that compare quantities ignore their units': 'C17',
    'indices of sorted or extremum elements of a quantity have its unit': 'C17',
    'keywords of numpy functions that are quantities of another unit are not converted': 'C17',
    'methods dot, searchsorted and trace ignore the units of quantities': 'C17',
    'units lost by ldexp, modf, nextafter and spacing': 'C17',
}
