"""The properties: one entry per id.  tools/meta.py writes properties.jsonl and MANIFEST.json from this table."""

P = {}


def prop(id, title, statement, over, text, why, files, mech, note):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note)


SM = 'starwinds_magnetogram/'

prop('C01', 'The coefficient container is a map from (degree, order) to values',
     'After any sequence of insertions and replacements a coefficient set holds exactly the accepted entries, each with the values last '
     'given for it, and its size, highest degree, lowest order and sorted contents agree with them; an unset entry reads as the default '
     '(zero unless told otherwise); its printed form lists every entry in order. Inserting an existing entry, an order outside [-degree, degree] or values of the wrong shape is '
     'refused and changes nothing. Changing arrays passed in or handed out as the default afterwards never changes a set.',
     ['histories', 'inputs'], 'every sequence of set/append operations, valid or not, and every value',
     'The tests append a few fixed entries; order of operations, duplicates after replacement and aliasing of caller arrays are never combined.',
     ['coefficients.py'], [('storage, append/set/get/has', 'coefficients.py: class Coefficients')],
     'histories up to 2 (3) operations with symbolic degree, order and complex values')

prop('C02', 'Arithmetic on coefficient sets is pointwise and leaves the operands alone',
     'The sum, difference, product or quotient with a number, and power of coefficient sets have, for every entry present in either '
     'operand, the value given by the pointwise operation (absent entries count as zero in sums; powers of any real exponent), also when the operands hold different types of numbers (whole, real, complex): nothing is truncated or dropped. The operands keep their entries and '
     'values and the result shares no storage with them. Sets with a different number of values per entry are not added.',
     ['inputs'], 'all values, all shapes of the two entry sets within the bounds',
     'The tests add and scale a handful of fixed sets; the union of partly overlapping sets with arbitrary values is not covered.',
     ['coefficients.py'], [('add, multiply, operators', 'coefficients.py: add, multiply, __add__ ... __truediv__')],
     'all combinations of small overlapping or disjoint entry sets, values symbolic')

prop('C03', 'Array export lists the requested entries in order and import is its inverse',
     'Exporting a coefficient set as arrays lists every requested (degree, order) once, in increasing degree then order, with its value, '
     'or the default when unset and unset entries were asked for; the degree and order limits select exactly the entries inside them. '
     'Building a set from such arrays gives back the same entries and values.',
     ['inputs', 'configurations'], 'all entry sets, limits and values within the bounds',
     'The tests use default limits on one fixed set; limits and unset entries interact.',
     ['coefficients.py'], [('as_arrays, from_arrays', 'coefficients.py: Coefficients.as_arrays, from_arrays')],
     'entry sets of degree up to 4, all limits, values symbolic')

prop('C04', 'Joining and splitting coefficient sets are inverse to each other',
     'Joining coefficient sets gives one set whose entry for each (degree, order) present in any of them is the concatenation of their '
     'values, zeros standing for absent entries. Splitting such a set gives back parts with the corresponding columns; inputs are left unchanged.',
     ['inputs'], 'all widths, entry sets and values within the bounds',
     'One fixed example is joined and split by the tests.',
     ['coefficients.py'], [('hstack, hsplit', 'coefficients.py: hstack, hsplit')],
     '1 to 3 sets with partly overlapping entries, values symbolic')

prop('C05', 'Scaling, truncating, copying and comparing coefficient sets',
     'Scaling multiplies every entry by the given function of degree and order raised to the given power; truncation keeps exactly the entries up to '
     'the given degree; a copy is equal and independent; zeroed and emptied copies keep only the layout. Two sets compare as close '
     'exactly when every entry present in either is close.',
     ['inputs'], 'all values, scale functions of degree and order, truncation degrees within the bounds',
     'The tests compare fixed sets for which closeness is clear and scale with one function.',
     ['coefficients.py'], [('scale, truncated, copy, allclose', 'coefficients.py: scale, truncated, copy, zeros_like, empty_like, allclose, isclose')],
     'entry sets of degree up to 3, values symbolic; closeness decided against the documented tolerance formula')

prop('C06', 'Reading a magnetogram file keeps every data line and nothing else',
     'Reading a file yields the same number of coefficient sets and values for every documented layout (header lines, one or three blocks, '
     'two or more columns, blank lines, any spacing): each data line becomes the entry of its degree and order in the set of its block, and lines '
     'that are not data are skipped. A file without data lines is not silently read as an empty magnetogram with invented values.',
     ['inputs', 'configurations'], 'all file layouts built from the described line kinds within the bounds, all numbers',
     'The tests read a few files; blank lines, headers, block separators and number formats are not combined.',
     ['reader_writer.py'], [('line classification and block separation', 'reader_writer.py: read_magnetogram_file')],
     'files of up to 3 blocks of up to 4 lines from symbolic pieces, numbers symbolic')

prop('C07', 'What is written to a magnetogram file is read back',
     'Writing coefficient sets to a file and reading the file gives the same sets: the same entries within the requested degree and order '
     'limits, and the same values to the precision of the file format, with or without a header. The sets being written are not changed.',
     ['inputs', 'configurations'], 'all entries, values, limits and header choices within the bounds',
     'The tests write and read back one magnetogram with default limits.',
     ['reader_writer.py'], [('write_magnetogram_file and read_magnetogram_file', 'reader_writer.py')],
     'one or three sets, degree up to 4, values symbolic with the rounding of the output format modelled')

prop('C08', 'The simulation header describes the data it heads',
     'A file written with the simulation header states the highest degree contained in the data, the number of data lines that follow, and '
     'columns in the order degree, order, real part, imaginary part; reading such a file gives the same data as without header.',
     ['inputs', 'configurations'], 'all entry sets, degree limits and order limits within the bounds',
     'No test compares the header with the data that follows it.',
     ['reader_writer.py'], [('header creation', 'reader_writer.py: create_swmf_header, write_magnetogram_file')],
     'entry sets of degree up to 4, symbolic limits and values')

prop('C09', 'The conversion command writes the converted data and never overwrites its input',
     'The conversion command writes one output file holding the input coefficients, converted in the requested direction and truncated to '
     'the requested degree, under the requested name or one derived from the input name. The input file keeps its contents whatever the arguments.',
     ['inputs', 'configurations'], 'all combinations of command line options and output names, all coefficient values',
     'The console tests run the command on fixed files and look at the exit status.',
     ['bin/convert_magnetogram.py', 'reader_writer.py', 'converter.py'],
     [('argument handling and output naming', 'bin/convert_magnetogram.py')],
     'all option combinations, file names from a list of shapes, coefficient values symbolic')

prop('C10', 'Converting ZDI to potential-field coefficients keeps the radial surface field',
     'For every radial ZDI coefficient set the converted potential-field coefficients describe, on the stellar surface, the same radial '
     'field at every point (with the azimuth measured in the opposite sense of the ZDI convention), whatever the degree; the factor of every degree and order, of either sign, is the ratio of the two normalisations; the input is not changed.',
     ['inputs'], 'all coefficient values and all points of the sphere, degrees within the bounds',
     'The tests compare maps of a few magnetograms on a grid with loose tolerances.',
     ['converter.py', 'coefficients.py'], [('conversion factors', 'converter.py: convert_zdi_to_pfss, forward_conversion_factor')],
     'degrees up to 4 (8), symbolic complex coefficients, every polar angle and azimuth')

prop('C11', 'Converting potential-field to ZDI coefficients gives the field at the surface',
     'The ZDI coefficients made from potential-field coefficients describe the field that the potential-field evaluation gives on the stellar '
     'surface: the radial, polar and azimuthal components agree at every point up to the azimuth convention, and there is no toroidal part. Converting back gives the original coefficients.',
     ['inputs'], 'all coefficient values and all points of the sphere, degrees within the bounds',
     'The tests compare single magnetograms on a grid; a mistake in one order or one degree above theirs passes.',
     ['converter.py', 'pfss_magnetogram.py'], [('inverse conversion factors', 'converter.py: convert_pfss_to_zdi')],
     'degrees up to 4 (8), symbolic complex coefficients, every polar angle and azimuth')

prop('C12', 'Folding negative orders onto positive ones keeps the radial field',
     'The magnetogram with its negative orders folded onto non-negative ones has no negative orders, keeps every degree, and has the same '
     'real radial field at every point of the sphere as the original. The original is unchanged.',
     ['inputs'], 'all coefficient values for both signs of the order, all points of the sphere',
     'The tests check a few degrees with random coefficients at sample points.',
     ['converter.py'], [('cosine and sine collection', 'converter.py: map_to_positive_orders, collect_cosines, collect_sines')],
     'degrees up to 4, symbolic complex coefficients, every point')

prop('C13', 'Rotating a magnetogram rotates its field and preserves power per degree',
     'The rotated coefficients describe at every point the field that the original describes at the point rotated back, for every rotation '
     'angle triple. The power of each degree is unchanged, the identity rotation changes nothing, and the original is not modified.',
     ['inputs'], 'all coefficient values, all angle triples, all points',
     'The tests use fixed angles and compare a few coefficients.',
     ['rotate.py'], [('rotation of coefficients', 'rotate.py: rotate_magnetogram, rotate_magnetogram_euler_zyz_deg')],
     'degrees up to 3 (5) with symbolic coefficients; angles symbolic for each rotation axis, points symbolic')

prop('C14', 'Field maps on a latitude-longitude grid give the coefficients of that field',
     'Converting field component maps to coefficients gives, for each degree and order, the area-weighted projection of the maps on the '
     'corresponding harmonic; for maps of a field with known coefficients these are recovered up to the grid resolution. The maps are not modified.',
     ['inputs'], 'all map values, and all coefficient values for recovered fields',
     'The tests recover one or two magnetograms with loose tolerances.',
     ['converter.py'], [('projection', 'converter.py: get_zdi_coeffs, convert_latlon_to_zdi')],
     'grids up to 12 x 24, degree up to 3, map values / coefficients symbolic')

prop('C15', 'ZDI field components equal their series definition everywhere on the sphere',
     'Each poloidal, toroidal and total component (radial, polar, azimuthal) of a ZDI magnetogram is, at every point including the poles, the real part of '
     'the sum over entries of coefficient times harmonic (or its derivative) with the standard normalisation; totals are sums of parts and the '
     'field strength is the Euclidean norm. Output shapes follow the input points.',
     ['inputs'], 'all coefficient values and all points of the sphere, degrees and orders within the bounds',
     'Tests compare with stored maps or with numerical derivatives for a few degrees; pole points and sign conventions of single orders go unseen.',
     ['zdi_magnetogram.py', 'associated_legendre.py'],
     [('component sums', 'zdi_magnetogram.py: get_*_field'), ('Legendre functions', 'associated_legendre.py')],
     'degrees up to 4 (10), orders of both signs, symbolic coefficients and angles; poles as explicit points')

prop('C16', 'Parts of a magnetogram are the matching terms of the field, and independent',
     'The dipole, degree/order-restricted, poloidal and toroidal parts of a magnetogram keep exactly the matching coefficients and zero the others, '
     'so that the parts add up to the whole field. Obtaining a part never changes the original, and changing the part does not either.',
     ['inputs', 'histories'], 'all coefficient values and restriction ranges within the bounds',
     'Tests restrict one magnetogram with fixed ranges and do not look at the original afterwards.',
     ['zdi_magnetogram.py'], [('sub-magnetograms', 'zdi_magnetogram.py: as_dipole, as_restricted, as_poloidal, as_toroidal, copy')],
     'degree up to 3, all ranges, coefficients symbolic')

prop('C17', 'Cartesian ZDI fields are the spherical components in the Cartesian frame',
     'The Cartesian field vector of a ZDI magnetogram at any point has the radial, polar and azimuthal components as its projections on the local '
     'unit vectors, and the poloidal and toroidal vectors add up to it.',
     ['inputs'], 'all coefficient values, all points',
     'The tests exercise the Cartesian field on one grid without comparing poloidal and toroidal parts.',
     ['zdi_magnetogram.py', 'coordinate_transforms.py'], [('frame change', 'zdi_magnetogram.py: get_cartesian_*_field, _cartesian_from_spherical_helper')],
     'degree up to 3, symbolic coefficients and angles')

prop('C18', 'Energies and energy fractions are surface integrals of the squared field',
     'The reported magnetic energies (total, poloidal, toroidal, per degree, per component, axisymmetric, dipolar, quadrupolar, octupolar) are proportional to '
     'the integral over the sphere of the square of the matching part of the field, and the reported fractions are the matching ratios, between 0 and 1. '
     'Fractions of complementary parts add up to one. The printed report, which appears only when no dictionary is given, states these same numbers to its rounding.',
     ['inputs'], 'all coefficient values, non-negative orders within the bounds',
     'Tests check that fractions look plausible for stored magnetograms.',
     ['zdi_magnetogram.py'], [('energy sums', 'zdi_magnetogram.py: energy, energy_matrix, _energy_helper')],
     'degree up to 4, symbolic coefficients; the integral identities at degree up to 2 by exact quadrature')

prop('C19', 'Radial and azimuthal factors of the potential field have their defining values',
     'The radial factor of every degree equals one at the stellar surface and leaves a purely radial field at the source surface, and its derivative factor is '
     'the exact derivative of it; the azimuthal factor of every order is the cosine/sine combination of its two coefficients and its derivative factor is the derivative.',
     ['inputs'], 'all radii, source surface radii and stellar radii with star inside source surface; all azimuths; degree and order symbolic',
     'Tests use fixed radii and a few degrees.',
     ['pfss_magnetogram.py'], [('r_l, phi_lm', 'pfss_magnetogram.py: r_l, phi_lm')],
     'degrees up to 30, orders of either sign, radii and azimuth symbolic')

prop('C20', 'Potential field evaluation is the harmonic series in each region of space',
     'Between star and source surface the field evaluated in spherical coordinates is the potential series with the given coefficients: its radial component at the stellar '
     'surface is the magnetogram and its tangential components vanish at the source surface. Inside the star it is zero; beyond the source surface it is radial and falls off as the inverse square of '
     'the radius. Points on the axis give the limit values and output shapes follow the input.',
     ['inputs', 'configurations'], 'all coefficients, points, stellar and source surface radii',
     'Tests evaluate a few magnetograms on grids and compare to a second implementation at selected radii.',
     ['pfss_magnetogram.py'], [('evaluate_spherical', 'pfss_magnetogram.py: evaluate_spherical, theta_lm')],
     'degree up to 3 (8), symbolic coefficients, radii, angles')

prop('C21', 'Cartesian evaluation of the potential field is the same field',
     'The potential field evaluated at Cartesian points equals the spherical evaluation at the same points, turned into the Cartesian frame, everywhere '
     'including the axis, for every choice of stellar and source surface radius. Input points are not changed.',
     ['inputs', 'configurations'], 'all points, coefficients and radii',
     'Tests plot slices and streamlines but compare few vectors.',
     ['pfss_magnetogram.py', 'coordinate_transforms.py'], [('evaluate_cartesian', 'pfss_magnetogram.py: evaluate_cartesian')],
     'degree up to 3, symbolic coefficients and points')

prop('C22', 'Coordinate transforms are mutually inverse and their frames orthogonal',
     'Converting Cartesian points to spherical coordinates and back gives the same points, with non-negative radius, polar angle in [0, pi] and the conventional '
     'axes (polar angle from +z, azimuth from +x towards +y), also on the axis and at the origin. The vector transformation matrices at any point are orthogonal, inverse to each other and map '
     'the radial, polar and azimuthal unit vectors to their Cartesian directions.',
     ['inputs'], 'all points and all angles',
     'Tests use a few points; quadrants, axis and origin are not separated.',
     ['coordinate_transforms.py'], [('transforms', 'coordinate_transforms.py')],
     'one or two points, all coordinates symbolic')

prop('C23', 'The surface grid divides the sphere into cells with exact areas',
     'For every grid, given by corner angles or numbers of corners, corners, cell centres, Cartesian positions and outward unit normals belong to the same cells; '
     'each centre is midway between its corners and each cell has its exact spherical area, so the areas of a whole-sphere grid add up to 4 pi. '
     'The projected visible fraction of a cell is the cosine of the angle between its normal and the direction of the observer, zero if turned away, whatever the length of the direction vector. '
     'Angles spanning more than the sphere are refused.',
     ['inputs', 'configurations'], 'all increasing corner angles, directions and grid sizes within the bounds',
     'The tests look at the total area and a few grids built from corner numbers.',
     ['geometry.py'], [('grid', 'geometry.py: ZdiGeometry')],
     'up to 4 x 3 (6 x 5) corners at symbolic angles; grids up to 9 x 18 and the default grid; directions symbolic')

prop('C24', 'Field statistics are area-weighted over the surface grid',
     'For every part and component of a magnetogram and for the field strength, the numerical description holds the area-weighted mean of the absolute value, root mean square and standard deviation of the '
     'absolute value, and the largest absolute value, over the cells of a whole-sphere grid; totals describe the sum of the parts and the strength is the Euclidean norm of the totals. A dictionary passed in is filled and keeps its other entries.',
     ['inputs'], 'all values of the field maps within the bounds',
     'The tests check that some keys exist or compare with one stored number.',
     ['geometry.py'], [('statistics', 'geometry.py: numerical_description')],
     'grids of 2 to 4 cells with every value symbolic; one-coefficient magnetograms on 4 x 6 cells with symbolic amplitude')

prop('C25', 'The longitudinal field is the disc-averaged line of sight field',
     'For every observer direction the longitudinal field is the average of the line of sight component of the magnetogram field over the visible cells, weighted with their '
     'projected areas; there is one value per observer azimuth, whole-number or not, by default one per azimuth corner of the grid.',
     ['inputs'], 'all coefficients and observer directions within the bounds',
     'The tests check one dipole and the shape of the result.',
     ['longitudinal_field.py', 'geometry.py'], [('disc average', 'longitudinal_field.py: get_longitudinal_field_curve')],
     'grids of 2 x 3 to 4 x 6 cells, symbolic coefficients; observer symbolic on up to 2 x 2 (2 x 3) cells')

prop('C26', 'Images and harmonic coefficients convert by exact synthesis and quadrature',
     'An image made from coefficients has at every cell centre the sum of the coefficients times the spherical harmonics there; coefficients made from an image are, for each degree below the '
     'limit and every order, the quadrature of the image with the conjugate harmonic over the cells. Results do not depend on conversions made before, on other grids, and inputs are left unchanged.',
     ['inputs', 'histories'], 'all pixel and coefficient values; conversion orders within the bounds',
     'The tests convert one image there and back with loose tolerance and never change grids between conversions.',
     ['image_converter.py'], [('analysis and synthesis', 'image_converter.py: from_image, to_image, spherical_harmonic')],
     'images up to 4 x 3 (8 x 5) pixels, degree up to 3 (4), three alternating grids')

prop('C27', 'The isothermal wind solves the Parker equation with constant mass flux',
     'For every star, temperature and radius the wind speed is the solution of the isothermal Parker equation that is subsonic inside and supersonic outside the sonic radius (equal to the sound speed there); below the surface it keeps the surface '
     'value. Density times speed times area is the same at all radii above the surface and equals the total mass flux, and the base density is at the surface. The radii passed in are not changed and shapes are kept.',
     ['inputs', 'configurations'], 'all stars and radii within the bounds',
     'The tests use the default star and a fixed list of radii.',
     ['parker_solution.py'], [('solution', 'parker_solution.py: AnalyticBase, ParkerSolution')],
     'radii of 0.01 to 100 sonic radii, all stellar parameters symbolic; 1 or 2 radii and 2 x 2 arrays')

prop('C28', 'Wavelength intervals split a spectrum exactly at its jumps',
     'The wavelength intervals of a spectrum are non-empty, in order, and together contain every sample exactly once; two neighbouring samples are in different intervals exactly when their wavelengths differ by more than the threshold.',
     ['inputs'], 'all wavelengths in any order and every threshold',
     'No test covers it; plots hide missing samples.',
     ['plot_lsd.py'], [('intervals', 'plot_lsd.py: wl_intervals')],
     '1 to 5 (7) samples, all symbolic')

prop('C29', 'Colour bar ticks of symmetric logarithmic scales match their labels',
     'The major ticks of a symmetric logarithmic colour bar are zero and plus and minus the requested powers of ten, each labelled with its own value, and the minor ticks are the digits times powers of ten in between; '
     'each tick is placed where the colour scale puts its value on the axis, minor ticks outside the bar are dropped, and the other axis is not touched. The unit change shifts the exponent of each label.',
     ['inputs', 'configurations'], 'all exponent ranges, steps, scales and axis limits within the bounds',
     'The tests draw one figure and do not read the ticks.',
     ['colorbar_manual_tickmarks.py'], [('ticks', 'colorbar_manual_tickmarks.py')],
     'exponents -4 to 8, steps 1 to 3; linear scales and axis limits symbolic')

prop('C30', 'The Fibonacci sphere is a set of evenly spread unit vectors',
     'For every number of points and every random offset the result has that many unit vectors, at heights evenly spaced from one pole to the other, each turned about the axis from the one before by the golden angle (up to one wrap around).',
     ['inputs'], 'all random offsets, numbers of points within the bounds',
     'The tests look at one size without the offset.',
     ['fibonacci_sphere.py'], [('points', 'fibonacci_sphere.py: fibonacci_sphere')],
     '1 to 20 (200) points, offset symbolic')

prop('C31', 'Random coefficient sets are complete with the stated scaling',
     'A random coefficient set holds one complex value for every degree in the requested range and every order from zero to the degree, made from one draw of two numbers scaled by the inverse of (2 degree + 1) times degree to the given power.',
     ['inputs', 'configurations'], 'all draws; degree ranges and powers within the bounds',
     'The tests check one range and cannot tell scalings of random numbers apart.',
     ['coefficients.py'], [('noise', 'coefficients.py: noise')],
     'degree ranges up to 4 (9), powers 0, 0.5, 1, 2, every draw symbolic')

prop('C32', 'Field maps show each value at its cell and mark the true extremes',
     'A drawn field map has each value at the cell it belongs to with angles in degrees; the marks and labels of the extremes sit at the cell of the largest and smallest value and state their values to the label precision. A symmetric colour scale is '
     'centred on zero and covers the data, and three component maps share one range that covers all three and carry the name of their component. The data are not changed.',
     ['inputs'], 'all field values and angles within the bounds',
     'The tests only check that figures are produced.',
     ['plots.py'], [('drawing', 'plots.py: plot_magnetic_field, add_extrema, plot_components, plot_equirectangular, latex_float')],
     'maps of 2 to 4 cells with symbolic values and angles; matplotlib calls recorded')

prop('C33', 'Plots and the plot command show the requested quantity of the magnetogram',
     'The component plots and the plotting command draw, at the cell centres of the surface grid, the values of the requested component (all three, radial, polar, azimuthal or the strength; the whole field or its poloidal or toroidal part; '
     'the potential field at the requested radius and source surface) of the given magnetogram or of the one read from the file in either format, under the name of that component. The stated mean is the area-weighted mean of the absolute value. '
     'The image is saved under the requested name or shown, the input file is unchanged, and unknown types are refused.',
     ['inputs', 'configurations'], 'all coefficient values and option combinations within the bounds',
     'The tests check that an image appears.',
     ['plot_zdi.py', 'plot_pfss.py', 'bin/plot_magnetogram.py'],
     [('field plots', 'plot_zdi.py: plot_zdi_components, plot_zdi_field'), ('command', 'bin/plot_magnetogram.py: main'), ('potential field', 'plot_pfss.py: plot_components')],
     'grid of 3 x 4 cells, three entries of degree up to 3 with symbolic coefficients; matplotlib calls recorded')

prop('C34', 'Energy plots show the energies and fractions of the magnetogram',
     'The energy matrix plot shows at each degree and order the energy of the requested type and refuses to hide negative orders; the curves by degree show the summed and cumulative total, poloidal and toroidal energy of each degree, '
     'scaled by the total energy if requested; the pies of the summary show the poloidal, toroidal, radial, axisymmetric and multipole fractions of the whole, not of each other.',
     ['inputs', 'configurations'], 'all coefficient values within the bounds',
     'The tests check that an image appears.',
     ['plot_zdi.py'], [('energy plots', 'plot_zdi.py: plot_energy_matrix, plot_energy_by_degree, plot_energy_summary')],
     'three or four entries of degree up to 4, one or two with symbolic numbers; matplotlib calls recorded')

prop('C35', 'Profile and spectrum plots show the right columns with their errors',
     'Each panel of a profile plot shows the requested Stokes parameter (I, V or N, in the requested order, any number of them) against velocity with its own error bars; a stack shows one profile per panel under its name, with free, given or common limits; '
     'a spectrum shows every sample of every column once, with limits at the 3rd and 97th percentile of the column. The command reads the rows after the requested number of header lines and saves the image under the requested name or shows it.',
     ['inputs', 'configurations'], 'all table values and option combinations within the bounds',
     'The tests for these plots are skipped for want of data files.',
     ['plot_lsd.py', 'bin/plot_lsd.py'], [('plots', 'plot_lsd.py: plot_lsd_profile, plot_lsd_stack, plot_spectrum'), ('command', 'bin/plot_lsd.py: main')],
     'tables of 2 (spectra 3) rows of symbolic numbers, 1 to 3 panels; matplotlib calls recorded')

prop('C36', 'Slices and stream traces draw the field of their own plane or surface',
     'A slice through the potential field, with normal along x, y or z and any extent, stellar radius and source surface, shows the radial field at the points of that plane, field lines along the two in-plane components, circles at the star and the source surface, and the names of the two axes. '
     'Stream traces over the stellar surface follow the azimuthal and polar components, with widths proportional to the tangential field, over a map of the radial field or the strength.',
     ['inputs', 'configurations'], 'all points of a plane; field amplitudes; configurations within the bounds',
     'The tests draw slices with the default normal only and do not look at the values.',
     ['plot_pfss.py', 'pfss_magnetogram.py', 'plot_zdi.py'],
     [('slices', 'plot_pfss.py: plot_slice; pfss_magnetogram.py: normal_plane'), ('stream traces', 'plot_pfss.py, plot_zdi.py: plot_streamtraces')],
     'plane points symbolic; slices of 5 x 7 points and surfaces of 3 x 4 cells with a field scaled by a symbolic amplitude; matplotlib calls recorded')

prop('C37', 'Nothing that is given to a computation is changed by it',
     'Reading, converting, rotating, evaluating, analysing, writing and plotting leave everything the caller passes in as it was: arrays of points, maps, coefficients and '
     'corners, coefficient sets, magnetograms and grids have the same contents afterwards as before, and what a computation returned earlier is not changed by a later one.',
     ['inputs', 'histories'], 'all inputs of the situations of all other checks',
     'The tests pass temporary arrays and do not look at them again.',
     ['coefficients.py', 'converter.py', 'rotate.py', 'zdi_magnetogram.py', 'pfss_magnetogram.py', 'geometry.py', 'parker_solution.py', 'image_converter.py', 'longitudinal_field.py', 'plot_zdi.py', 'plot_pfss.py'],
     [('arguments of every public function', 'all modules of starwinds_magnetogram'), ('radii kept', 'parker_solution.py: speed, density; pfss_magnetogram.py: evaluate_spherical'),
      ('sets kept', 'converter.py, rotate.py, coefficients.py: scale, arithmetic')],
     'arrays, sets, magnetograms and grids compared with a copy taken when they were made; the situations and bounds of the other checks, quick: first and last case of each harness')

prop('C38', 'Everything computed from a magnetogram is linear in its coefficients',
     'The field components, Cartesian and potential fields, longitudinal field, images, conversions, rotations and scalings of a + s b, for coefficient sets a and b and a number s, are those of a plus s times '
     'those of b, also when entries cancel, when one set is much weaker and when the sets hold different entries; harmonic analysis of images and of field maps is linear in the image or map. '
     'Energies are quadratic: those of s a are s^2 times those of a, and those of a + b and a - b together are twice those of a and b.',
     ['inputs'], 'all coefficient values and factors, at every point of the sphere',
     'The tests compare single magnetograms with stored numbers; a threshold, clipping or dropped small term is linear on none of them.',
     ['zdi_magnetogram.py', 'pfss_magnetogram.py', 'converter.py', 'rotate.py', 'image_converter.py', 'longitudinal_field.py', 'coefficients.py'],
     [('fields', 'zdi_magnetogram.py: get_*; pfss_magnetogram.py: evaluate_spherical, evaluate_cartesian'), ('conversions', 'converter.py; rotate.py; coefficients.py: scale'),
      ('analysis', 'image_converter.py: from_image; converter.py: convert_latlon_to_zdi_coeffs'), ('energies', 'zdi_magnetogram.py: energy, energy_matrix')],
     'sets of up to 4 entries of degree up to 4, all values and the factor symbolic, one symbolic point; images of up to 3 x 2 cells')

prop('C39', 'The order of entries, and entries that are zero, make no difference',
     'Two coefficient sets, magnetograms or files that hold the same entries in another order, or in addition entries whose values are all zero, give the same fields, potential fields, longitudinal field, images, '
     'conversions, rotations, energies, parts and files, each result attached to the same degree and order.',
     ['inputs', 'histories'], 'every value; several orders of insertion; zero entries anywhere',
     'The tests always build sets in order of degree and order.',
     ['coefficients.py', 'zdi_magnetogram.py', 'pfss_magnetogram.py', 'converter.py', 'rotate.py', 'image_converter.py', 'longitudinal_field.py', 'reader_writer.py'],
     [('sets', 'coefficients.py: contents, as_arrays, scale'), ('magnetograms', 'zdi_magnetogram.py: ZdiMagnetogram, energy, energy_matrix, as_restricted'), ('files', 'reader_writer.py: read_magnetogram_file, write_magnetogram_file')],
     '4 entries of degree up to 4 in four orders, up to two zero entries, all values symbolic, one symbolic point')

prop('C40', 'Points are evaluated independently of each other',
     'The result at a point does not depend on the other points of the array, on their order, on repeated points, or on the shape and memory layout of the array, and has the shape of the points: ZDI field '
     'components and Cartesian fields, potential fields in spherical and Cartesian coordinates (points inside the star, at poles, on and beyond the source surface included), coordinate transforms, wind speed and '
     'density, and the longitudinal field at several observer azimuths.',
     ['inputs'], 'all coordinates of one point among others, several shapes and layouts',
     'The tests evaluate on one regular grid; masks, reshapes and loops over mixed points (inside and outside, at poles) are not compared with single points.',
     ['zdi_magnetogram.py', 'pfss_magnetogram.py', 'coordinate_transforms.py', 'parker_solution.py', 'longitudinal_field.py', 'associated_legendre.py'],
     [('fields', 'zdi_magnetogram.py: get_*; associated_legendre.py'), ('potential fields', 'pfss_magnetogram.py: evaluate_spherical, evaluate_cartesian, calculate_all_theta'),
      ('transforms', 'coordinate_transforms.py'), ('wind', 'parker_solution.py: speed, density'), ('observers', 'longitudinal_field.py: get_longitudinal_field_curve')],
     'up to 6 points, one symbolic, in 10 shapes and layouts; 4 fixed coefficients; wind with symbolic star')

prop('C41', 'The number type and arrangement of inputs make no difference',
     'Points, radii, angles, corners, images, maps and coefficients that are whole numbers (32-bit integers as well, and Cartesian coordinates of any integer type), read-only, transposed, strided or reversed in memory give the same results as ordinary arrays of the '
     'same values: fields, potential fields, transforms, wind, longitudinal field, grids, energies, harmonic analysis and rotation.',
     ['inputs'], 'symbolic coefficients, factors, stars or points against whole-number arguments',
     'The tests pass floating point arrays only; results truncated to whole numbers or written into the input are not seen.',
     ['zdi_magnetogram.py', 'pfss_magnetogram.py', 'coordinate_transforms.py', 'parker_solution.py', 'longitudinal_field.py', 'geometry.py', 'image_converter.py', 'converter.py', 'rotate.py'],
     [('points', 'zdi_magnetogram.py: get_*; pfss_magnetogram.py: evaluate_*; coordinate_transforms.py'), ('radii', 'parker_solution.py: speed, density'), ('azimuths, corners', 'longitudinal_field.py; geometry.py'),
      ('values', 'zdi_magnetogram.py: energy; image_converter.py: from_image; converter.py: convert_latlon_to_zdi_coeffs')],
     '4 to 12 whole-number arguments, 6 kinds of arrays; the other side (4 coefficients, star or point) symbolic')

prop('C42', 'Turning or mirroring a magnetogram turns or mirrors all that is computed from it',
     'A magnetogram turned about its axis by any angle, each coefficient changed by the phase of its order, has at the turned points the same field components and the turned Cartesian field, the same '
     'longitudinal field for the turned observer, the same energies, and converted coefficients with the phase of the same turn; potential fields likewise. The mirror image in the equator '
     'has the mirrored fields at the mirrored points.',
     ['inputs'], 'every turning angle, point and coefficient value',
     'The tests look at one orientation; an error tied to a fixed meridian, hemisphere or quadrant is consistent within it.',
     ['zdi_magnetogram.py', 'pfss_magnetogram.py', 'longitudinal_field.py', 'converter.py', 'geometry.py'],
     [('fields', 'zdi_magnetogram.py: get_*; pfss_magnetogram.py: evaluate_*'), ('longitudinal field', 'longitudinal_field.py: get_longitudinal_field_curve; geometry.py'), ('energies', 'zdi_magnetogram.py: energy, energy_matrix'),
      ('conversion', 'converter.py: convert_zdi_to_pfss')],
     '4 coefficients of degree up to 4, one symbolic point, one symbolic and three fixed angles, mirror; grids of up to 3 x 4 cells')

prop('C43', 'What a computation returned belongs to the caller',
     'Overwriting an array or a coefficient set that was returned (field values, Legendre factors, energies, harmonics, coordinates, areas and corners of a grid, parts and copies of sets and magnetograms, '
     'sums, conversions, rotations, read files) changes no result of a later call, neither the set, the magnetogram nor the grid it came from, and no result that was returned before.',
     ['inputs'], 'every coefficient and pixel value and point, results overwritten before or after a second call',
     'Tests look at a result and drop it; a result that shares its memory with a cache or with the object it came from is right until the caller changes it.',
     ['zdi_magnetogram.py', 'pfss_magnetogram.py', 'coefficients.py', 'geometry.py', 'image_converter.py', 'converter.py', 'rotate.py', 'reader_writer.py', 'coordinate_transforms.py', 'parker_solution.py', 'fibonacci_sphere.py', 'longitudinal_field.py'],
     [('magnetograms', 'zdi_magnetogram.py: get_*, as_*, copy, energy, energy_matrix'), ('potential fields', 'pfss_magnetogram.py'), ('grids', 'geometry.py: ZdiGeometry'), ('sets', 'coefficients.py; converter.py; rotate.py; reader_writer.py'),
      ('images', 'image_converter.py: spherical_harmonic, to_image, from_image')],
     '4 coefficients, up to 4 points, one symbolic; grids of up to 3 x 4 cells; two calls, the results of the first or of the second overwritten')

NOT_APPLICABLE = {}
