"""Source of properties.jsonl: `python3 tools/props.py` rewrites it."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))


T = 'raytools/translate.py'
VM = 'raytools/mapper/viewmapper.py'
AM = 'raytools/mapper/angularmixin.py'
MM = 'raytools/mapper/mapper.py'
SM = 'raytools/mapper/solidviewmapper.py'
IO = 'raytools/io.py'
IT = 'raytools/imagetools.py'
BM = 'raytools/evaluate/basemetricset.py'
MS = 'raytools/evaluate/metricset.py'
CM = 'raytools/evaluate/colormetricset.py'
PI = 'raytools/evaluate/positionindex.py'
RT = 'raytools/evaluate/retina.py'
HV = 'raytools/evaluate/hvsgsm.py'
CLI = 'raytools/cli.py'
UT = 'raytools/utility.py'

p('C01', 'Square-to-sphere map is an equal-area bijection',
  'Converting square coordinates (u in [0,2], v in [0,1]) to directions yields unit vectors, with u<=1 in the positive and u>1 in the negative hemisphere of the chosen axis, and converting a direction to square coordinates and back in the same axis order returns it (on the whole sphere with the flip option and negative x sign, on the positive hemisphere without), as does the reverse trip for square coordinates away from the border. Equal areas of the square cover equal solid angles (disk map: equal areas of the disk), so every aligned sub-rectangle maps to a region of 2*pi steradians times its area. Unnormalised directions give the same result as normalised ones when normalisation is requested.',
  ['inputs'], 'every (u,v) in [0,2]x[0,1] including edges, diagonals and centre; every unit vector; every axis permutation and flip setting; every array size',
  'test_uv2xyz/test_xyz2uv sample fixed grids for one axis order and never measure areas or the disk map.',
  [T], [('uv2xyz', T), ('xyz2uv', T), ('uv2xy', T)])
p('C02', 'Square and sky-patch bin numbering is a consistent enumeration',
  'Bin numbers enumerate the cells of the square row by row: converting a bin number to the coordinate of its cell (any interior offset) and back returns the same number, every coordinate falls in the cell whose bounds contain it, and for aspect 2 the second square continues the numbering. A sky-patch number converted to its direction and back is unchanged, directions below the horizon never receive a sky-patch number smaller than side*side (their representative direction is straight down), a positive tolerance returns exactly the sorted set of sky patches within that tolerance, and the numbering and centre directions agree with the Radiance .cal definitions the module publishes.',
  ['inputs'], 'every side length, bin number, offset in (0,1), direction and tolerance',
  'tests use one or two sides and a handful of bins; agreement with the published .cal source is tested on one side only.',
  [T], [('uv2ij/uv2bin/bin2uv', T), ('xyz2skybin/skybin2xyz', T), ('scbinscal/scxyzcal', T)])
p('C03', 'Angular coordinates describe the same direction in every form',
  'Polar (theta in [0,pi], phi in [0,2pi)) and altitude/azimuth (degrees, azimuth in (-180,180]) coordinates of a direction convert back to that direction for every direction including straight up and straight down, and normalising polar angles never changes the direction they denote. Angle, cosine, degree and chord helpers agree with each other and with the geometric angle between the vectors, for parallel and opposite vectors too. The angular-fisheye xy position of a direction lies at a radius equal to its angle from the axis divided by 90 degrees, along its azimuth.',
  ['inputs'], 'every unit vector incl. poles, axes and the seam; every angle in range; every array size and dtype',
  'tests cover small random samples that never contain poles or the azimuth seam.',
  [T], [('tp2xyz/xyz2tp/tpnorm', T), ('aa2xyz/xyz2aa', T), ('ctheta/radians/degrees/chord2theta/theta2chord', T), ('xyz2xy', T)])
p('C04', 'Rotations, normalisation and reflection are rigid',
  'Elementary rotation by an angle about an axis follows the right-hand rule, preserves lengths and angles, composes additively and agrees between degrees and radians. The rotation pair built for a view direction is orthonormal with determinant 1, carries that direction to +z and world up into the +y half plane (identity for +z, fixed 180 degree turns for -z), for a single vector or a batch. Normalising returns parallel unit vectors (the zero flat vector stays zero) and mirroring about a unit normal preserves length, negates the normal component, keeps the tangential component, and is its own inverse.',
  ['inputs'], 'every direction (incl. +-z, near-poles), angle, axis and batch size',
  'tests check a few directions; sign, handedness and near-pole errors slip between samples.',
  [T], [('rmtx_elem/rotate_elem', T), ('rmtx_yp', T), ('norm/norm1', T), ('reflect', T)])
p('C05', 'Culling removes exactly the redundant vectors',
  'Culling a set of vectors with a tolerance returns a mask with one entry per vector such that no two kept vectors are within the tolerance, every culled vector is within the tolerance of a kept vector that precedes it, and the first vector is always kept. The result is the same whether an array or a prebuilt tree is given, and culling the kept vectors again removes nothing.',
  ['inputs'], 'every vector set, including duplicates, chains and clusters, every tolerance >= 0',
  'one random set with one tolerance is tested; chains and duplicates are not.',
  [T], [('cull_vectors', T)])
p('C06', 'Array resampling keeps values and means',
  'Without smoothing, upsampling by whole factors repeats every sample in place and downsampling by whole factors returns the mean of every block, so down after up returns the original array, the output has exactly the requested shape for every factor, and constant arrays stay constant with smoothing on or off. Indexing helpers that take lists, slices, integers or None along chosen axes return the same elements as the equivalent plain indexing and keep the number of dimensions.',
  ['inputs'], 'every array shape, dimension count and whole-number factor per axis',
  'tests use factors 2-10 in fixed shapes.',
  [T], [('resample', T), ('simple_take', T)])
p('C07', 'Weighted quantiles are order statistics of the weighted data',
  'A weighted quantile lies between the smallest and largest included value, never decreases as the quantile grows, equals the minimum at 0 and the maximum at 1, and does not depend on the order of samples with distinct values or on the common scale of the weights. Samples at or below the weight threshold have no influence, increasing affine maps of the data map the result, interpolation is linear in cumulative weight between samples, and with no weights it is the plain quantile; the median is the 0.5 quantile.',
  ['inputs'], 'every data/weight array, quantile vector in [0,1] and threshold',
  'tests compare a handful of quantiles on one data set.',
  [T], [('weighted_quantile', T), ('weighted_median', T)])
p('C08', 'Non-uniform Gaussian smoothing equals its kernel definition',
  'Smoothing irregular samples returns, at each requested coordinate (or at each input coordinate in the input order), the average, median or quantile of the samples weighted by a normal density centred there with width sigma*scale (Scott rule when omitted), for one or many features. The result does not depend on the order of the samples, a bandwidth covering all samples changes nothing, coordinates too far from any sample fall back to linear interpolation or the end value, and invalid averaging methods are rejected with ValueError.',
  ['inputs', 'configurations'], 'every sample set (sorted or not), feature count, sigma, bandwidth, method and output coordinates',
  'tests use one sorted data set and compare lengths or single numbers.',
  [T], [('non_uniform_gaussian_filter', T)])
p('C09', 'View coordinates are the direction seen in the view frame',
  'For every view direction and angle, a view mapper turns the view direction to the frame axis (world up ends at frame up) by a rotation that is undone exactly, its square coordinates convert to unit directions and back, the view direction sits at the centre of the square, and every interior square coordinate of a <=180 degree view lies within the view while the 360 degree view covers the sphere with its second half opposite. Changing the view direction of an existing mapper gives exactly the behaviour of a mapper newly built for it, the reported angles to the view direction equal the geometric angle, and the origin is prepended to rays only when asked.',
  ['inputs', 'histories'], 'every view direction (incl. +-z), view angle in (0,180] or 360, square coordinate and sequence of direction changes',
  'tests use two or three directions, 180/360 degrees and freshly built mappers.',
  [VM, AM, MM], [('ViewMapper', VM), ('uv2xyz/xyz2uv', AM), ('dxyz setter', VM), ('view2world/world2view', MM)])
p('C10', 'Pixels and rays of a view are inverse and equidistant',
  'For an angular fisheye view, the ray of every pixel maps back to that pixel, fractional pixel positions round-trip to themselves, and integer positions are the floor of fractional ones; the angle from the view direction is proportional to the distance from the image centre and the azimuth is preserved, with image right and up matching the view. Pixel grids list every pixel exactly once at its centre (jitter stays within its cell), 360 degree views put the opposite hemisphere in the second half of the image, and square-projection images use the centre of each square cell.',
  ['inputs', 'configurations'], 'every resolution, view direction, view angle in (0,180] or 360, pixel (fractional too) and jitter',
  'tests check a few resolutions for forward consistency.',
  [AM, MM, VM, SM], [('xyz2vxy/vxy2xyz', AM), ('pixels/pixelrays/ray2pixel/pixel2ray', MM), ('init_img', AM)])
p('C11', 'Image rays agree with Radiance for the header written',
  'For every 180 degree view direction, the ray the library assigns to a pixel equals the ray Radiance (vwrays) computes for that pixel from the view header the library writes for that mapper, and the header is always one Radiance accepts. The header carries the view type, size, direction and point given.',
  ['inputs', 'configurations'], 'every view direction incl. +-z and near-vertical, every resolution and view point',
  'one direction is compared with stored output; vertical directions are never tried.',
  [AM, VM], [('header', AM), ('pixelrays', AM)])
p('C12', 'Pixel solid angles tile the view',
  'The solid angle reported for a pixel of an angular fisheye view is positive, equals the solid angle the pixel subtends (up to second order in pixel size), depends only on the distance from the centre, is the same for every view direction, and the solid angles of the pixels in a 180 degree view sum to the view area (2*pi) as resolution grows. Images converted to rays list direction, solid angle and value for every pixel in the same order, each solid angle belonging to its own pixel.',
  ['inputs', 'configurations'], 'every resolution, view direction and view angle',
  'a test compares one resolution to a loose total.',
  [AM, IT], [('pixel2omega', AM), ('hdr2vol', IT)])
p('C13', 'View masks select exactly the rays inside the view',
  'A ray is in view exactly when its angle from the view direction is less than half the view (plus tolerance), index and mask results of the same query denote the same rays for 1-d and image-shaped ray arrays, and the masks returned with a new image mark exactly its in-view pixels, for grey and colour images, 180 and 360 degree views, in every supported projection; a planar mapper holds the points whose unit coordinates are within [0, 1], edges included. New images have the documented shape, are zero, and pair each pixel with its own ray.',
  ['inputs', 'configurations'], 'every view direction/angle, ray set, image resolution, channel count, projection name and index mode',
  'tests look at one resolution and compare sums.',
  [AM, VM, MM], [('in_view', AM), ('init_img', AM)])
p('C14', 'Plotting rays marks exactly their pixels',
  'Drawing directions into an image sets exactly the pixels containing in-frame directions to the given channel values, leaves every other pixel and every channel given as None untouched, ignores directions outside the frame or outside a supplied mask, and places directions behind a 360 degree view in the second half. Drawing is independent of the order of the directions and idempotent, and growing a mark spreads it over the square neighbourhood of the stated size.',
  ['inputs', 'configurations'], 'every ray set, mapper, image shape, channel specification, mask, grow radius and projection',
  'one plotting test checks the file exists.',
  [AM, MM], [('add_vecs_to_img', AM), ('add_vecs_to_img', MM)])
p('C15', 'Planar mappers scale, index and enumerate consistently',
  'For a planar mapper, unit coordinates map linearly onto the bounding box scaled by the scale factor and back, flattened grid indices convert to cell coordinates (centre, or within the jitter fraction of the cell) and back to the same index for every grid shape, and the area and aspect ratio follow the bounding box. Frame sizes keep the longest side at the requested resolution and the other side in proportion, and per-pixel areas of a frame sum to the mapper area.',
  ['inputs', 'configurations'], 'every bounding box, scale, grid shape, index, jitter rate and resolution',
  'no test covers the planar mapper beyond construction.',
  [MM, VM], [('Mapper', MM), ('idx2uv/uv2idx', MM), ('framesize', MM)])
p('C16', 'HDR images round-trip through files',
  'Writing a grey or colour array to an HDR file and reading it back returns the same orientation, shape and channel order with every pixel within the precision of the shared-exponent format (relative to its brightest channel), zeros staying zero; images of other programs are read into the same array whatever the order of the pixels in the file; reading grey equals weighting the colour read by the luminance coefficients, writing the read image again reproduces the pixels exactly, and it works for any path the operating system accepts (including spaces and quotes). A written image is read identically by Radiance itself.',
  ['inputs', 'configurations'], 'every array size (non-square too), dtype and memory layout, value range of the format, channel mode and file name',
  'tests round-trip one image and compare the mean.',
  [IO], [('array2hdr/carray2hdr', IO), ('hdr2array/hdr2carray', IO)])
p('C17', 'HDR headers are preserved, found and reported',
  'Header lines given when writing an image are all present, in order and unaltered, when its header is read, whatever characters they contain, and header lookups return the value of the last line holding the requested key, compared case-insensitively, in the order requested (empty when absent). Radiance files are recognised as such and other files are not, a missing image raises FileNotFoundError or ValueError, and a non-image file raises an error rather than returning data.',
  ['inputs', 'fault_sequences'], 'every list of header lines, lookup key set, file content and missing/corrupt file',
  'tests look up one key in one file.',
  [IO], [('hdr_header/header_items/is_hdr', IO), ('array2hdr', IO)])
p('C18', 'Header cleaning loses no information and is stable',
  'Cleaning any header text never fails, keeps exactly the last VIEW as the final line, drops only pvalue/FORMAT lines, file groups without lines and repeated lines (never repeated EXPOSURE lines, each of which counts), and keeps every other distinct line with its value, in order and in its file group (each repetition moves the line out of the group that holds it, to the place before that group), wrapped at the stated width in a form that unwraps to the original. Cleaning an already cleaned header changes nothing, and an image rewritten with a cleaned header keeps its pixel values and view.',
  ['inputs'], 'every header: nesting, tabs/spaces, duplicate keys, long lines, wrapped lines, blank lines, odd characters',
  'tests clean two stored headers.',
  [IO], [('CleanHeader', IO), ('clean_header', IO)])
p('C19', 'Binary vector I/O is lossless and explicit about errors',
  'Arrays written as bytes or to files and read back with the same shape and dtype equal the original converted to that dtype, independent of memory layout, byte order or of appending in pieces; bytes that do not exactly fill the requested shape are rejected with ValueError. Loading text arrays returns the data, and reports a wrong type, a missing file and unparsable content with TypeError, FileNotFoundError and ValueError respectively.',
  ['inputs', 'fault_sequences'], 'every array shape, dtype string, layout, split into appended pieces; every non-array argument or file content',
  'one shape and dtype is round-tripped.',
  [IO], [('np2bytes/bytes2np/np2bytefile/bytefile2np', IO), ('load_txt', IO)])
p('C20', 'Colour to luminance conversion is linear and consistent',
  'Converting rgb to radiance is the coefficient-weighted sum over the last axis for arrays of any number of dimensions and any coefficients, luminance is 179 times that, and both are linear and act per pixel. Converting packed shared-exponent bytes gives the luminance of the colour those bytes encode (zero mantissas give zero).',
  ['inputs'], 'every array shape, value, coefficient vector and rgbe quadruple',
  'one value is tested.',
  [IO], [('rgb2rad/rgb2lum/rgbe2lum', IO)])
p('C21', 'The process cap follows its last setting',
  'After any sequence of setting, clearing and direct environment changes, the process count returned is the explicit argument if given, otherwise the last positive cap set, otherwise the number of CPUs (also when the stored value is not a number). Setting zero or a negative number clears the cap, setting None changes nothing, clearing twice is harmless, and non-integers are rejected without changing the cap.',
  ['histories'], 'every sequence of set/unset/get and environment edits',
  'one fixed sequence is tested.',
  [IO, CLI], [('get_nproc/set_nproc/unset_nproc', IO)])
p('C22', 'Parallel calls equal the sequential loop',
  'Running a function over a list of arguments with processes, threads or no workers returns the same results in the same order as a plain loop, with each argument expanded or passed whole as requested and fixed and keyword arguments appended, for any number of arguments including none and any worker cap, regardless of completion order. An exception raised by any call propagates to the caller. The pool of a progress bar has as many processes as the cap says, at any level of nesting.',
  ['inputs', 'schedules', 'configurations'], 'every argument list, fixed/keyword arguments, worker mode, cap, and relative task durations',
  'a few sizes with identical durations are tested.',
  [UT], [('pool_call', UT), ('TStqdm', UT)])
p('C23', 'Peak normalisation conserves energy',
  'Consolidating the bright peak removes a subset of rays that are all above the threshold and within the stated radius of the brightest ray, leaves all other rays unchanged and in order, and adds one unit-direction source whose luminance times solid angle equals that of the removed rays (per channel in colour), with the source area equal to the target area, or the energy-equivalent area when the peak has less energy than a full source. With no ray above the threshold nothing changes; the kept-zeros, parts and peak-only return forms describe the same result, and ray order does not matter. When secondary peaks are requested, each group of rays further than eight grouping radii from the peak and brighter than four times the threshold is reported with its mean direction, total solid angle and mean value.',
  ['inputs', 'configurations'], 'every ray set (grey or colour), threshold, scale, target area, radius, ratio and return form',
  'one stored image is compared with stored numbers.',
  [IT], [('normalize_peak/find_peak/gather_strays', IT)])
p('C24', 'Square and angular image projections show the same scene',
  'Converting an image between square and angular fisheye projections moves pixel values only: each in-view output pixel takes the value of the input pixel containing its own direction (per channel, for half and full-sphere square images), and pixels outside the view are zero. The file commands produce the image of the array functions applied to the file (using the view in its header when asked), keep the header, and default the output name from the input.',
  ['inputs', 'configurations'], 'every image content, resolution, channel count, view direction in the header',
  'a stored image is compared with stored output.',
  [IT, VM, T], [('array_uv2ang/array_ang2uv', IT), ('hdr_uv2ang/hdr_ang2uv', IT)])
p('C25', 'Rotating and centring fisheye images moves the scene rigidly',
  'Rotating an angular fisheye image by zero changes nothing inside the view, rotating by quarter turns permutes pixels exactly, and rotating by an angle shows at each pixel the input value at the rotated position, with linear or nearest interpolation, identically for each channel. Centring on a pixel brings the scene at that pixel to the image centre and mapping one pixel onto another brings the first to the second; rotation and centring are combined in the requested order, constant images stay constant and the file command equals the array function.',
  ['inputs', 'configurations'], 'every image, resolution, angle, centre/target pixels, order and interpolation',
  'tests compare one image with stored output only by running the command.',
  [IT], [('array_rotate', IT), ('hdr_rotate', IT)])
p('C26', 'Equisolid and angular fisheye images convert by the projection law',
  'Converting between equisolid and equidistant fisheye images samples, at each output pixel inside the image circle, the input at the same azimuth and the radius given by the two projection laws (equisolid radius proportional to the sine of half the angle, full radius at the view edge for 180 degrees), with linear or nearest interpolation, each channel alike. Forward then reverse conversion returns a smooth image, constant images stay constant inside the circle, pixels outside are zero, and the file command uses the view size in the header unless overridden and keeps the direction and point of that view.',
  ['inputs', 'configurations'], 'every smooth or constant image, resolution, channel count, direction and interpolation',
  'a stored image pair is compared.',
  [IT, VM, SM], [('array_solid2ang', IT), ('transform_to', VM)])
p('C27', 'The view of an image or view file is recovered exactly',
  'The view read from an image header or a view file has the direction, angle and point of the last angular fisheye view it contains, with documented defaults for missing parts, and an image twice as wide as high with a 180 degree view is read as the full sphere. An image without a fisheye view reports no view, a view file without one is an error, the reported size is the width and height of the image, and a view header written by a mapper reads back as that mapper.',
  ['inputs', 'fault_sequences'], 'every view direction, angle, point, option order, number of view lines, image size; missing or malformed files',
  'one image and one view file are read.',
  [IT, AM], [('hdr2vm/vf_to_vm/img_size', IT), ('header', AM)])
p('C28', 'Image metrics equal the metrics of the image rays',
  'The metrics of an image file equal the metric set computed from its pixel values, pixel directions and pixel solid angles in the view of its header (180 degrees when it has none), in the requested order, with peak normalisation applied exactly when requested. Luminance coefficients come from the argument, else the header, else the default, and are used for the pixel luminance, for peak normalisation and for colour metrics alike; scaling parameters act as documented.',
  ['inputs', 'configurations'], 'every image (grey/colour, 180 or 360 degree view, with or without view/coefficients in header), metric list and option combination',
  'one image is evaluated for a few metrics.',
  [IT], [('imgmetric/hdr2vol', IT)])
p('C29', 'Metric values equal their published formulas',
  'Every metric of a ray set (illuminance, average, maximum, position-weighted and task luminance, contrast, density, source and background terms, DGP and its terms, UGR, UGP, low-light correction) equals its formula applied to the in-view rays, solid angles and position indices, with glare sources the rays strictly brighter than the fixed threshold or, for thresholds up to 100, that factor times the task luminance. Unknown metric names are rejected with AttributeError.',
  ['inputs', 'configurations'], 'every ray set, scale, threshold, task radius, position-index choice, view and low-light option',
  'tests compare a few metrics on one stored scene.',
  [BM, MS, PI], [('BaseMetricSet', BM), ('MetricSet', MS)])
p('C30', 'Metrics depend only on the scene, not on access history',
  'Metric values do not depend on the order in which metrics are requested, on repeated or interleaved requests across several metric objects, on whether they are read as properties or by calling, or on the order of the rays. Scaling luminance by a factor is the same as scaling the scale parameter, splitting a ray into co-directional parts with the same total solid angle leaves solid-angle-weighted metrics unchanged, and illuminance of a union of ray sets is the sum of their illuminances; every list of metrics reported as safe to sum adds up over separate sources of a view, and one with a metric that does not is never reported as safe.',
  ['inputs', 'histories'], 'every ray set and every sequence of metric accesses over several objects',
  'tests read each metric once from one object.',
  [BM, MS, CM], [('cached properties', BM)])
p('C31', 'Metric ray sets are clipped and area-corrected to the view',
  'For views up to 180 degrees only rays inside the view contribute; a bright ray just outside whose disk overlaps the view contributes the overlapping part only (its own overlap area, moved inside the view edge), independently of other such rays, while other outside rays have no influence at all. When solid angles are corrected to the view area (more than 100 rays) only rays at the view edge change and (when there are any) the corrected solid angles sum to the view area; otherwise solid angles are kept and their sum is the view area. Full-sphere views keep all rays.',
  ['inputs', 'configurations'], 'every ray set with rays inside, at and beyond the edge, any brightness, both area modes, any view direction',
  'tests contain no edge rays and check no areas.',
  [BM], [('BaseMetricSet.__init__', BM), ('omega setter', BM)])
p('C32', 'Colour metrics agree with luminance metrics',
  'For colour rays every luminance metric equals the same metric computed from the weighted channel sum, for any number of channels and matching coefficients, and channel irradiance is the cosine- and solid-angle-weighted sum per channel so that its weighted sum is the illuminance. Multi-valued metrics are returned in place in the requested order, one value per channel. The rays are divided into sources above the threshold and the background, each with its directions, solid angles, luminances and channels.',
  ['inputs', 'configurations'], 'every colour ray set, channel count, coefficient vector, metric list',
  'a single scene is tested.',
  [CM], [('ColorMetricSet', CM)])
p('C33', 'Position index follows the published models',
  'The position index of a direction equals the Guth formula above the line of sight and the Iwata rule below it (never more than 16, and 16 behind the observer), or the Kim formula when selected; it depends only on the direction relative to the view so it is unchanged when view and directions are turned together about the vertical, is symmetric left to right, is 1 on the line of sight under Guth and grows with the angle from it above the line of sight. It is finite for every direction including the view axis, one value per direction.',
  ['inputs', 'configurations'], 'every view direction, source direction and model choice',
  'stored values for one view are compared.',
  [PI], [('PositionIndex', PI)])
p('C34', 'Retinal models match their published definitions',
  'The point-spread function and its inverse undo each other, are 1 at the centre and one half at half the full width; the sun blur correction is at least 1, does not depend on luminance outside its limits and grows with luminance within them. Ganglion cell densities are positive, equal the meridian values on the axes, lie between the values of the two adjoining meridians of their quadrant elsewhere, and the two-eye average is symmetric left to right.',
  ['inputs'], 'every angle, solid angle, luminance, and visual-field position in all four quadrants',
  'tests compare a few stored values.',
  [RT], [('hpsf/inv_hpsf/blur_sun', RT), ('rgcf_density_*/rgc_density_*/binocular_density', RT)])
p('C35', 'Glare-sensation model components are well behaved',
  'The components of the human-vision glare model (pupil, adaptation, point spread and blur, contrast and response stages) keep the shape and finiteness of every image, are zero-preserving and monotone where their formula is, conserve energy where they only redistribute light without displacing it (mirrored images have mirrored responses), and give bounded responses for every luminance from zero to the brightest representable.',
  ['inputs'], 'every luminance image and parameter within its documented range',
  'only end values for stored images are compared.',
  [HV], [('GSS', HV)])
p('C36', 'Glare-sensation scores do not depend on history or parallelism',
  'The score of an image with some light in it is a finite non-negative number that is the same whether the evaluator is fresh or has processed other images of the same view before (at the same or another resolution), whether the view comes from the image, a mapper or a view file (180 degrees when none is given), and whether several images are evaluated together, in any order, in parallel or one at a time, each result belonging to its own image. Brightness supplied externally replaces the illuminance computed from the image, and saved response images are those of the scored image.',
  ['inputs', 'histories', 'schedules'], 'every sequence of images (sizes, views, contents) processed by one or several evaluators, parallel or not',
  'two stored images are processed once each.',
  [HV], [('GSS/gss_compute', HV)])
p('C37', 'The metric command reports the library values for each image',
  'The metric command prints a header and one line per image, in the order given, whose columns are the requested metrics in the order of the header with the values the library computes for that image and those options, independent of parallel or sequential execution. Invalid metrics or files fail with an error, not with partial output.',
  ['inputs', 'configurations'], 'every image list, metric list and option combination',
  'a single invocation is smoke-tested.',
  [CLI], [('metric', CLI)])
p('C38', 'Image commands equal the library functions',
  'The project, align, solid2ang and cleanheader commands write, for every option combination, to the documented default file or to standard output, exactly the image and header the corresponding library function produces, for one or several images; reading the written image gives those pixels and inputs are never modified.',
  ['inputs', 'configurations'], 'every image, option combination, one or many inputs, file or stdout',
  'each command is smoke-tested once.',
  [CLI, IT], [('project/align/solid2ang/cleanheader', CLI)])
p('C39', 'The smooth command evaluates the filter or density on the data',
  'The smooth command prints one line per output coordinate with the coordinate followed by the smoothed value of each requested column, equal to the library filter (or the kernel density of x when no columns are given) with the given or Scott-rule width and factor, whether output coordinates are given explicitly or as a count spanning the data.',
  ['inputs', 'configurations'], 'every data table, column choice, output specification and width option',
  'the command is not tested beyond one run.',
  [CLI, T], [('smooth', CLI)])
p('C40', 'Library calls have no side effects on their inputs or globals',
  'Calling any coordinate, mapper, image-array, colour or metric function leaves the arrays passed to it, the mapper objects it is given and the numeric error settings and environment of the process unchanged, so that repeating the call with the same objects gives the same result. Functions accept read-only and (signed) integer arrays wherever they accept float arrays of the same values.',
  ['inputs', 'histories'], 'every public array function, argument layout (read-only, integer, list, non-contiguous), and repeated call',
  'tests never compare inputs before and after a call.',
  [T, MM, AM, VM, IT, BM, MS], [('array functions', T), ('vxy2xyz', AM), ('BaseMetricSet.__init__', BM)])
p('C41', 'The Radiance search path puts the package after the working directory',
  'Importing the package, and set_raypath for any base file and subfolder, leaves RAYPATH holding the working directory (.), then the folder of the files, then the entries that were there before in their order, each entry once; a second call changes nothing and no other environment variable is touched. Radiance tools started afterwards find the .cal files of the package from any working directory, and a file of the same name in the working directory is used first.',
  ['inputs', 'histories'], 'every previous value of the variable (absent or not), base file, subfolder, and history of calls and edits',
  'the tests run in one environment and never look at the variable.',
  ['raytools/__init__.py'], [('set_raypath', 'raytools/__init__.py')])

p('C42', 'Options and inputs mean the same however they are given',
  'For every command, options given in a configuration file (the section of the command or the global section) act exactly as the same options on the command line, which takes precedence over the section of the command, which takes precedence over the global one; sections of other commands and earlier commands of the process have no influence, and a configuration that cannot be used is an error that does nothing. Inputs listed in a file, matched by a pattern or read from standard input give the same results as inputs given by name, and no temporary file remains. Options that only report (version, help, parsed options) execute nothing.',
  ['inputs', 'configurations', 'histories'], 'every command, option subset, split between file and command line, way to give the inputs, and order of commands',
  'no test uses a configuration file, a list or standard input.',
  [CLI], [('main', CLI), ('printconfig', CLI)])

if __name__ == '__main__':
    with open(os.path.join(HERE, '..', 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['id']
            f.write(json.dumps(q) + '\n')
