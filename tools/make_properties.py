#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the wording lives in one reviewable place)."""
import json, pathlib
P = []
PK = "starwinds_magnetogram/"
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[PK+f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=PK+b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

# ---------------------------------------------------------------- coefficient sets
p("C01", "Coefficient operations leave operands unchanged and results independent",
  "Adding, subtracting, multiplying, dividing, raising to a power, scaling, truncating, copying, stacking, splitting, comparing, converting, folding or rotating coefficient sets never changes any set that was passed in. The resulting sets share no mutable storage with their operands or with the arrays the caller supplied, so that later changing one of them never shows through in another.",
  ["inputs", "histories"], "every coefficient set (any index pairs, any values), every operation, every later mutation of an operand or result",
  "The tests compare values right after one operation; none of them mutates a result and looks at the operand again, and no finite sample of histories covers every operation pair.",
  ["coefficients.py", "converter.py", "rotate.py"],
  [("storage copies on set (astype)", "coefficients.py:Coefficients.set"), ("default returned as a copy", "coefficients.py:Coefficients.default_coefficients"), ("results built from empty_like", "coefficients.py:copy/scale/add/multiply/hstack/hsplit")],
  [("coefficients", "dict (degree, order) -> 1d array", "Coefficients.coefficients"), ("default", "array standing for unset pairs", "Coefficients._default_coefficients")])
p("C02", "Coefficient arithmetic acts entry by entry over the union of index pairs",
  "The sum, difference or product of two coefficient sets has exactly the index pairs present in either operand, and its entry at each pair is the sum, difference or product of the operands' entries, a missing entry counting as the set's default (zero). Scaling, multiplying or dividing by a number, raising to a power, truncating to a degree (inclusive), copying, stacking and splitting keep index pairs and entries in the same entry-by-entry way. Operands whose entries differ in width are rejected.",
  ["inputs"], "all pairs of coefficient sets, all scalars, all scale functions, all truncation degrees",
  "Tests use one- or two-entry sets and mostly only log the result.",
  ["coefficients.py"],
  [("union of keys", "coefficients.py:add/multiply/hstack"), ("default for missing", "coefficients.py:Coefficients.get"), ("inclusive degree filter", "coefficients.py:truncated")])
p("C03", "Only well-formed entries are stored and append never overwrites",
  "An entry is accepted only if its order lies between minus and plus its degree and its data has the shape of the set's entries; otherwise the call fails and the set is unchanged. Appending an index pair that is already present fails and leaves the stored entry as it was, whereas setting replaces exactly that entry; the reported highest degree, lowest order and size always describe the entries stored.",
  ["inputs", "histories"], "every sequence of append/set calls with any degree, order and data",
  "Tests only perform valid single insertions; rejection and the bookkeeping after long histories are never exercised.",
  ["coefficients.py"],
  [("duplicate guard", "coefficients.py:Coefficients.append"), ("range and shape guards", "coefficients.py:Coefficients.set"), ("bookkeeping", "coefficients.py:Coefficients.set")])
p("C04", "Array export lists each requested entry once in degree-order sequence",
  "Exporting a coefficient set to arrays returns three parallel arrays holding, in increasing degree and then increasing order, each index pair inside the requested degree and order bounds (bounds inclusive, defaulting to all) exactly once with its entry; unset pairs appear with the default value only when asked for. Building a set from such arrays stores every listed entry at its own index pair and rejects arrays of differing length.",
  ["inputs"], "all coefficient sets, all combinations of bounds, both settings of the unset flag",
  "Tests call the export with defaults and never compare the listing.",
  ["coefficients.py"],
  [("nested degree/order ranges", "coefficients.py:Coefficients.as_arrays"), ("from_arrays", "coefficients.py:from_arrays")])
p("C05", "Closeness of coefficient sets is judged over all entries of both sets",
  "Two coefficient sets compare as close exactly when their entries have the same shape and, at every index pair present in either set, the two entries agree within the tolerances given (a missing entry counting as the default). Tolerance arguments reach the comparison unchanged.",
  ["inputs"], "all pairs of coefficient sets and tolerances",
  "Tests only compare a set with itself or with one modified entry.",
  ["coefficients.py"], [("union of keys, np.isclose", "coefficients.py:isclose/allclose")])
p("C06", "Generated noise covers each degree and order once with the stated scaling",
  "A noise magnetogram contains exactly one entry for each degree from the lowest to the highest requested degree (inclusive) and each order from zero to the degree, drawn from the noise function supplied. The entry's complex value is the drawn pair divided by twice the degree plus one and by the degree to the power beta.",
  ["inputs"], "all degree ranges, noise functions and beta",
  "No test calls the generator.",
  ["coefficients.py"], [("noise", "coefficients.py:noise")])
# ---------------------------------------------------------------- files
p("R01", "Written magnetogram files list every coefficient in range with a truthful header",
  "A written file contains its header lines followed, for each component of the set in turn, by one line per index pair with degree from 0 to the chosen maximum (default: the set's own highest degree) and order from the chosen minimum to the degree, in increasing degree then order, giving degree, order, real and imaginary part, zeros standing in for unset pairs. The SWMF header states the number of data lines per component that actually follow and the maximum degree used, and is present exactly when requested.",
  ["inputs", "configurations"], "all coefficient sets, maximum degrees, minimum orders, header settings",
  "Tests write files but never read the header or count lines.",
  ["reader_writer.py"],
  [("as_arrays listing with padding", "reader_writer.py:write_magnetogram_file"), ("header line count", "reader_writer.py:create_swmf_header")])
p("R02", "Reading recovers each data line and ignores every other line",
  "Reading a magnetogram file stores, for every line whose first four tokens parse as two integers and two real numbers, the complex value formed from tokens three and four at the degree and order of tokens one and two; every other line is skipped without failing. A new component starts exactly when an index pair repeats within the current component, and the result stacks the components in file order.",
  ["inputs"], "all text files: any headers, blank lines, number of components and numeric values",
  "Two fixture files with fixed headers are read; no other line shapes, component boundaries or values are tried, and the values are not checked.",
  ["reader_writer.py"],
  [("token parsing in try/except", "reader_writer.py:read_magnetogram_file"), ("repeat detection", "reader_writer.py:read_magnetogram_file")])
p("R03", "What the writer emits the reader accepts as the same entries",
  "Every data line the writer can emit is a line the reader parses as data, with the same degree, order, real part and imaginary part in the same positions (to the six decimals written), and no header line the writer emits on its own account is taken as data by the reader. A set of several components is read back as the same components in the same order.",
  ["inputs"], "all coefficient sets with non-negative orders and both header styles",
  "No test reads back a written file.",
  ["reader_writer.py"],
  [("line format", "reader_writer.py:write_magnetogram_file"), ("token positions", "reader_writer.py:read_magnetogram_file"), ("header shapes", "reader_writer.py:create_swmf_header")])
# ---------------------------------------------------------------- command line
p("L01", "Magnetogram conversion never overwrites its input or an implicit output",
  "The conversion command writes only to the output name given, or to a name derived from the input's file name by inserting the target format before the extension; it fails, writing nothing, when that output denotes the same file as the input however either path is spelled. When the output name was derived rather than given, it also fails if that file already exists.",
  ["inputs", "configurations", "histories"], "all input/output path spellings, all conversion modes, any prior directory content",
  "Tests convert one file to a distinct explicit name.",
  ["bin/convert_magnetogram.py"],
  [("output name guard", "bin/convert_magnetogram.py:_make_output_filename"), ("all writes through the guard", "bin/convert_magnetogram.py:no_conversion/convert_zdi_to_pfss/convert_pfss_to_zdi")])
p("L02", "Conversion command options select the conversion and reach the writer",
  "Without flags the conversion command writes the radial component of the input converted to PFSS scaling; with the reverse flag it writes the three ZDI components of a single-component input; with the no-conversion flag it writes the input's coefficients unaltered. The requested maximum degree reaches the written file in every mode, and the SWMF header is written in the forward and no-conversion modes unless switched off and never in the reverse mode.",
  ["configurations", "inputs"], "all combinations of options and input files",
  "Tests check only the exit status.",
  ["bin/convert_magnetogram.py"],
  [("dispatch", "bin/convert_magnetogram.py:main"), ("per-mode conversion", "bin/convert_magnetogram.py:no_conversion/convert_zdi_to_pfss/convert_pfss_to_zdi")])
p("L03", "Plot command shows the quantity that was asked for, labelled as such",
  "The plot command draws the field component or energy view named by the plot type, from the input interpreted in the named magnetogram type, with the mathematical label of that same component ($B_r$ radial, $B_\\theta$ polar, $B_\\phi$ azimuthal). Unknown plot or magnetogram types are rejected, and the figure is saved to the output file exactly when one is named and shown otherwise.",
  ["configurations", "inputs"], "all plot types, magnetogram types, input files, with and without an output file",
  "Tests check only the exit status for a list of plot types; the labels are never inspected.",
  ["bin/plot_magnetogram.py", "zdi_magnetogram.py", "plots.py"],
  [("getter table", "bin/plot_magnetogram.py:main")])
# ---------------------------------------------------------------- conversions
p("V01", "ZDI to PFSS conversion scales each coefficient by the documented factor",
  "Converting ZDI radial coefficients to PFSS multiplies the entry at each degree l and order m by sqrt(2l+1) / ((-1)^m sqrt(4 pi) sqrt(2 - delta_m0)) and changes nothing else. The inverse conversion's radial component is exactly the reciprocal scaling, so converting there and back restores the coefficients.",
  ["inputs"], "all degrees, orders (either parity) and coefficient values",
  "Tests sample a handful of degrees/orders.",
  ["converter.py", "coefficients.py"],
  [("forward_conversion_factor", "converter.py:forward_conversion_factor"), ("scale with power -1", "converter.py:convert_pfss_to_zdi")])
p("V02", "PFSS to ZDI conversion yields radial, poloidal and zero toroidal components",
  "Converting PFSS coefficients to ZDI returns at every index pair present, and only there, a radial, a poloidal and a toroidal coefficient in that order. The poloidal coefficient equals the radial one times (l+1) R_l(1; 1, 3), the PFSS radial function at the stellar surface for a source surface at three radii, and the toroidal coefficient is zero.",
  ["inputs"], "all PFSS coefficient sets",
  "Tests sample single coefficients and compare fields on one grid with loose tolerance.",
  ["converter.py", "pfss_magnetogram.py"],
  [("_beta_inverse_conversion_factor", "converter.py:_beta_inverse_conversion_factor"), ("hstack of alpha, beta, gamma", "converter.py:convert_pfss_to_zdi")])
p("V03", "Folding negative orders preserves the radial field",
  "Folding yields, for each degree up to the set's highest and each non-negative order, the coefficient of the positive order plus (-1)^m times the complex conjugate of the negative-order coefficient (order zero unchanged), and no negative orders. Hence the real radial field is the same before and after folding, at every point.",
  ["inputs"], "all coefficient sets with any mix of positive and negative orders",
  "Tests compare fields for a few unseeded random sets on one grid.",
  ["converter.py"],
  [("map_to_positive_orders", "converter.py:map_to_positive_orders"), ("collect_cosines", "converter.py:collect_cosines")])
p("V04", "Latitude-longitude maps are projected with the documented quadrature",
  "Converting sampled field maps to ZDI coefficients returns, for each degree up to the maximum and each order from zero to the degree, the area-weighted quadrature of the radial, polar and azimuthal maps against the corresponding spherical-harmonic kernels, times the normalisation constant of that degree and order, doubled for non-zero orders. The cell area supplied is used as given, or else taken as the mean polar spacing times the mean azimuthal spacing.",
  ["inputs"], "all maps, grids, cell areas and maximum degrees",
  "Tests project a handful of single-coefficient fields onto one grid.",
  ["converter.py"],
  [("get_zdi_coeffs", "converter.py:get_zdi_coeffs"), ("positive_lm", "converter.py:positive_lm")])
# ---------------------------------------------------------------- ZDI magnetogram
p("Z01", "ZDI field components equal their spherical-harmonic expansions",
  "At every point the radial, polar and azimuthal poloidal and toroidal field components equal the real parts of the documented sums over all coefficients (alpha for radial, beta for the poloidal and gamma for the toroidal tangential parts), including coefficients of negative order. The radial toroidal component is zero, and the components do not depend on the number or arrangement of the points evaluated together.",
  ["inputs"], "all coefficient lists (any degrees, signs of order, values) and all evaluation points away from the poles",
  "Tests evaluate a few magnetograms on one grid, most with plots only; tangential components of negative orders are never evaluated.",
  ["zdi_magnetogram.py", "associated_legendre.py"],
  [("component getters", "zdi_magnetogram.py:ZdiMagnetogram.get_*_field*"), ("Legendre tables", "associated_legendre.py:calculate_lpmn"), ("normalisation", "zdi_magnetogram.py:get_c_lm")])
p("Z02", "ZDI totals, strength and component table are consistent",
  "For each direction the total field equals the poloidal plus the toroidal field, the field strength is the Euclidean length of the three total components, and the component table returns for each direction and term the function computing exactly that component.",
  ["inputs"], "all magnetograms and points",
  "Tests look at one average value and at plots.",
  ["zdi_magnetogram.py"],
  [("get_radial_field/get_polar_field/get_azimuthal_field", "zdi_magnetogram.py:ZdiMagnetogram"), ("get_field_strength", "zdi_magnetogram.py:ZdiMagnetogram.get_field_strength"), ("get_all", "zdi_magnetogram.py:ZdiMagnetogram.get_all")])
p("Z03", "Cartesian field vectors are the spherical components rotated to Cartesian axes",
  "The Cartesian full, poloidal and toroidal fields at a point are the corresponding radial, polar and azimuthal components multiplied by the local unit vectors, for any shape of the point arrays, and each of the three can be computed. Hence the full Cartesian field is the sum of the poloidal and toroidal ones.",
  ["inputs"], "all magnetograms and point arrays",
  "Only the full field is tested; the poloidal and toroidal variants are never called.",
  ["zdi_magnetogram.py", "coordinate_transforms.py"],
  [("_cartesian_from_spherical_helper", "zdi_magnetogram.py:_cartesian_from_spherical_helper"), ("get_cartesian_*", "zdi_magnetogram.py:ZdiMagnetogram")])
p("Z04", "Derived magnetograms keep exactly the requested part and leave the source alone",
  "Restricting a magnetogram keeps exactly the coefficients whose degree and order lie in the given inclusive ranges (a single number meaning that value only), the dipole being degree one; the poloidal part keeps alpha and beta with gamma zero, the toroidal part keeps gamma with alpha and beta zero, and a copy keeps everything. The source magnetogram is never changed and shares no arrays with the copy or with the poloidal and toroidal parts.",
  ["inputs", "histories"], "all magnetograms, ranges and later modifications",
  "Tests build restricted magnetograms only to plot them.",
  ["zdi_magnetogram.py"],
  [("as_restricted", "zdi_magnetogram.py:ZdiMagnetogram.as_restricted"), ("copy", "zdi_magnetogram.py:ZdiMagnetogram.copy")])
p("Z05", "Energy accounting follows the ZDI definition and every fraction its name",
  "The energy of a coefficient is half its squared modulus (for order zero, the square of its real part), times l/(l+1) for the poloidal-tangential and toroidal coefficients. Every reported fraction equals the sum over the coefficients its name describes divided by the total, poloidal or toroidal energy or dipole energy it refers to, whether written to a dictionary or printed, for every magnetogram including those lacking some degrees or orders.",
  ["inputs"], "all magnetograms",
  "Tests call the function without checking any of the reported numbers.",
  ["zdi_magnetogram.py"],
  [("_energy_helper", "zdi_magnetogram.py:ZdiMagnetogram._energy_helper"), ("energy", "zdi_magnetogram.py:ZdiMagnetogram.energy")])
p("Z06", "The energy matrix places each coefficient's energy at its degree and order",
  "The radial, poloidal (radial included) and toroidal energy matrices have one row per degree from zero to the highest and one column per order from minus to plus the highest degree, hold each coefficient's energy at its own row and column, and are zero elsewhere.",
  ["inputs"], "all magnetograms, with any mix of orders",
  "Tests only plot the matrix.",
  ["zdi_magnetogram.py"], [("energy_matrix", "zdi_magnetogram.py:ZdiMagnetogram.energy_matrix")])
p("Z07", "Magnetograms are built from coefficient sets entry for entry",
  "A ZDI magnetogram built from a coefficient set holds exactly the set's stored entries, with the first, second and third component as alpha, beta and gamma; missing beta or gamma components are zero. Its normalisation constants are sqrt((2l+1)/(4 pi) (l-m)!/(l+m)!), the alternative evaluation of the factorial ratio giving the same value.",
  ["inputs"], "all coefficient sets of one to three components",
  "Tests construct a few magnetograms and do not inspect them.",
  ["zdi_magnetogram.py"], [("from_coefficients", "zdi_magnetogram.py:from_coefficients"), ("get_c_lm", "zdi_magnetogram.py:get_c_lm")])
# ---------------------------------------------------------------- PFSS
p("F01", "PFSS basis functions and their derivatives match the potential-field solution",
  "The radial function is r* (r*/r)^(l+1) [1-(r/rss)^(2l+1)] / [l+1+l (r*/rss)^(2l+1)], so it vanishes at the source surface, and the accompanying derivative is its exact derivative in radius with value -1 at the stellar surface. The azimuthal function is g cos(m phi) + h sin(m phi) with its exact derivative, and the polar function is the Schmidt-normalised associated Legendre function without the Condon-Shortley phase.",
  ["inputs"], "all degrees, orders, radii, angles and coefficients",
  "Tests sample a few degrees and radii.",
  ["pfss_magnetogram.py"],
  [("r_l", "pfss_magnetogram.py:r_l"), ("phi_lm", "pfss_magnetogram.py:phi_lm"), ("theta_lm", "pfss_magnetogram.py:theta_lm/calculate_all_theta")])
p("F02", "PFSS field is zero inside the star and inverse-square outside the source surface",
  "For every coefficient set and point the spherical PFSS field is zero strictly inside the star; from the stellar surface to the source surface it is minus the gradient of the summed potential terms; beyond the source surface it is the source-surface field at the same angles times (rss/r)^2. Each point's value depends only on that point.",
  ["inputs"], "all coefficient sets with non-negative orders, points and radii",
  "Tests compare one reference file and make plots; the three zones are not checked at arbitrary points.",
  ["pfss_magnetogram.py", "associated_legendre.py"],
  [("zone masks", "pfss_magnetogram.py:evaluate_spherical"), ("term accumulation", "pfss_magnetogram.py:evaluate_spherical")])
p("F03", "PFSS evaluation rejects radii that are not ordered and negative orders",
  "Evaluating or slicing a PFSS field with a stellar radius that is not smaller than the source-surface radius fails before any field is computed, in the spherical, Cartesian and slice-plotting entry points alike, and omitted radii take the package defaults of 1 and 2.5. Coefficient sets containing a negative order are refused.",
  ["inputs", "configurations"], "all radius combinations, given or defaulted",
  "No test passes invalid radii or negative orders.",
  ["pfss_magnetogram.py", "plot_pfss.py"],
  [("radius assertions", "pfss_magnetogram.py:evaluate_spherical/evaluate_cartesian"), ("defaults", "pfss_magnetogram.py:default_radius_star")])
p("F04", "Cartesian PFSS evaluation agrees with the spherical one at the same points",
  "Evaluating at Cartesian points returns the spherical components at the equivalent spherical coordinates with the same radii, together with Cartesian components obtained by multiplying them by the local unit vectors, in arrays of the shape supplied.",
  ["inputs"], "all coefficient sets, point arrays of any shape and radii",
  "Tests compare a few random points without checking orientation.",
  ["pfss_magnetogram.py", "coordinate_transforms.py"],
  [("evaluate_cartesian", "pfss_magnetogram.py:evaluate_cartesian")])
# ---------------------------------------------------------------- coordinates and geometry
p("T01", "Vector rotation matrices are orthonormal and mutually inverse",
  "At every polar and azimuth angle the spherical-to-rectangular matrix has as columns the radial, polar and azimuthal unit vectors expressed in x, y, z, and the rectangular-to-spherical matrix is its transpose, so that their product is the identity.",
  ["inputs"], "all angles, arrays of any length",
  "The matrices are only used indirectly in plots and one comparison.",
  ["coordinate_transforms.py"],
  [("spherical_to_rectangular_transformation_matrix", "coordinate_transforms.py"), ("rectangular_to_spherical_transformation_matrix", "coordinate_transforms.py")])
p("T02", "Rectangular and spherical coordinates describe the same point",
  "Converting rectangular to spherical coordinates gives the distance from the origin, the angle from the z axis in [0, pi] and the azimuth from the x axis towards y in (-pi, pi]; at the origin the conversion does not fail. Converting spherical coordinates to rectangular ones and vice versa gives back the same point.",
  ["inputs"], "all points, including the axis and the origin",
  "Tests do not call the round trip.",
  ["coordinate_transforms.py"],
  [("spherical_coordinates_from_rectangular", "coordinate_transforms.py"), ("rectangular_coordinates_from_spherical", "coordinate_transforms.py")])
p("G01", "Facet areas, centres and normals describe the same partition of the sphere",
  "For every grid of polar and azimuthal corners a facet's area is the exact area of the spherical patch between its corners (the cosine difference times the azimuth difference, so that a grid closing the sphere sums to 4 pi), its centre is the mean of its four corners, and its unit normal and Cartesian centre are the unit vector at that centre. Arrays of facets have azimuth along the first axis and polar angle along the second.",
  ["inputs", "configurations"], "all corner arrays, uniform or not, closed or partial",
  "Tests check the summed area of one uniform grid.",
  ["geometry.py"],
  [("areas", "geometry.py:ZdiGeometry.areas"), ("centers", "geometry.py:ZdiGeometry.centers"), ("unit_normals", "geometry.py:ZdiGeometry.unit_normals")])
p("G02", "Grid construction honours its arguments and never wraps more than once",
  "Integer arguments give that many equally spaced corners over the full polar and azimuthal ranges, a single integer gives twice as many azimuthal corners as polar ones, no arguments give 65 polar and 130 azimuthal corners, and corner arrays are used as given. A polar extent above pi or an azimuthal extent above 2 pi is rejected.",
  ["inputs", "configurations"], "all constructor argument combinations",
  "Tests use two constructor forms.",
  ["geometry.py"], [("ZdiGeometry.__init__", "geometry.py:ZdiGeometry.__init__")])
p("G03", "Projected visibility depends only on direction and hides the far side",
  "A facet's projected visible fraction is the cosine of the angle between its normal and the viewing direction where that is positive and zero otherwise, for a viewing vector of any length.",
  ["inputs"], "all grids and viewing vectors",
  "Tests view from a few unit vectors.",
  ["geometry.py"], [("projected_visible_area_fraction", "geometry.py:ZdiGeometry.projected_visible_area_fraction")])
p("G04", "Numerical field descriptions are area-weighted over the grid",
  "The numerical description of a magnetogram reports for each component, direction and the total strength the largest absolute value, the area-weighted mean absolute value, the root mean square and the standard deviation over the sphere, each under the name of the component it was computed from.",
  ["inputs"], "all magnetograms and closed grids",
  "No test checks the values.",
  ["geometry.py"], [("numerical_description", "geometry.py:numerical_description")])
p("B01", "Longitudinal field is the visibility-weighted mean of the line-of-sight field",
  "For each observer azimuth the curve value is the field component along the observer direction averaged over the visible disk with weights area times projected visible fraction, where the observer direction has the given polar angle and azimuth. The values are the same whether azimuths are given as integers or floats, together or one at a time, and by default one azimuth per grid azimuth corner over a full turn is used.",
  ["inputs"], "all grids, magnetograms, observer angles and azimuth arrays of any numeric type",
  "Tests evaluate dipoles at a few float azimuths.",
  ["longitudinal_field.py", "geometry.py"],
  [("get_longitudinal_field_curve", "longitudinal_field.py:get_longitudinal_field_curve")])
# ---------------------------------------------------------------- Parker wind
p("W01", "Parker solution: speed, density and mass flux are mutually consistent",
  "At every radius the speed is the sonic speed times the transonic solution of the dimensionless Parker equation (the subsonic branch inside the sonic radius, the supersonic branch outside), radii below the stellar surface being treated as the surface. Density follows from base density by mass conservation, so 4 pi r^2 times speed times density equals the total mass flux at every radius at or above the surface. Asking for all solutions returns the subsonic and then the supersonic branch.",
  ["inputs"], "all temperatures, densities, stellar radii and masses, and radii",
  "Tests compare a sample of radii and temperatures.",
  ["parker_solution.py"],
  [("find_parker_analytic", "parker_solution.py:AnalyticBase.find_parker_analytic"), ("speed/density", "parker_solution.py:ParkerSolution")])
# ---------------------------------------------------------------- rotation, images
p("Q01", "Rotation mixes all orders of each degree with the Wigner matrix of the rotation",
  "A rotated coefficient set has, for every degree up to the source's highest and every order, the sum over all source orders of that degree of the Wigner matrix element (degree, source order, target order) of the rotation times the source coefficient, and no mixing between degrees. Euler angles are taken in degrees and converted once.",
  ["inputs"], "all coefficient sets of any component count, and all rotations",
  "Tests rotate one magnetogram by some angles.",
  ["rotate.py"], [("rotate_magnetogram", "rotate.py:rotate_magnetogram")])
p("I01", "Image analysis and synthesis use the same harmonics on the same grid",
  "Analysing an image returns for each degree below the limit and each order from minus to plus the degree the sum over grid cells of the image times the conjugate harmonic times sine of polar angle times the cell's angular extents; synthesis returns the sum of the coefficients times the same harmonics at the cell centres. The grid used for analysis is the one supplied, or one with as many cells as the image has pixels, and is returned.",
  ["inputs"], "all images, grids and coefficient sets",
  "One image is analysed and plotted without comparison.",
  ["image_converter.py"],
  [("from_image", "image_converter.py:from_image"), ("to_image", "image_converter.py:to_image")])
p("I02", "Cached harmonics are always those of the arguments and are never altered",
  "A memoised spherical-harmonic evaluation returns the value for exactly the degree, order and grid it is asked for, with or without the cache. Nothing in the package modifies an array handed out by the cache, so the order or history of calls never changes a result.",
  ["histories", "inputs"], "all call sequences on any grids",
  "Tests call the conversion once per grid.",
  ["image_converter.py"],
  [("lru_cache keyed on all arguments", "image_converter.py:_cached_spherical_harmonic")])
# ---------------------------------------------------------------- package-wide
p("N01", "Evaluation never modifies the caller's arrays or objects",
  "No function or method of the package other than the coefficient set's own append and set (and result dictionaries or plot axes the caller hands over to be filled) changes an array, list, dictionary, magnetogram, geometry or coefficient set passed to it, or the object it is called on. The same call repeated with the same arguments therefore returns the same result.",
  ["inputs", "histories"], "every public function, all argument values, all call sequences",
  "Tests do not compare arguments before and after calls.",
  ["coefficients.py", "converter.py", "zdi_magnetogram.py", "pfss_magnetogram.py", "coordinate_transforms.py", "geometry.py", "longitudinal_field.py", "parker_solution.py", "rotate.py", "image_converter.py", "plots.py", "plot_zdi.py", "plot_pfss.py", "plot_lsd.py", "associated_legendre.py", "colorbar_manual_tickmarks.py"],
  [("fresh buffers before in-place updates", "pfss_magnetogram.py:evaluate_spherical"), ("copies", "converter.py:get_zdi_coeffs")])
p("N02", "Results keep full precision whatever the numeric type of the coordinates",
  "Numerical results computed from integer-typed radii, angles or azimuths equal those computed from the same values given as floats: no result is rounded or truncated because a buffer took over an argument's integer type.",
  ["inputs"], "every evaluation function and every numeric argument type",
  "Tests always pass floats.",
  ["longitudinal_field.py", "parker_solution.py", "pfss_magnetogram.py", "zdi_magnetogram.py", "associated_legendre.py", "coordinate_transforms.py"],
  [("explicit dtypes on buffers", "zdi_magnetogram.py, pfss_magnetogram.py")])
p("N03", "Everything but the noise generators is deterministic and free of hidden state",
  "Random numbers are drawn only by the noise generator and by the sphere sampler when randomisation is requested; no other function's result depends on random numbers, the clock, the environment or earlier calls. No function assigns package-level state, and default argument values are never modified.",
  ["histories", "inputs"], "all call sequences",
  "Tests run functions once per process.",
  ["coefficients.py", "fibonacci_sphere.py", "image_converter.py", "pfss_magnetogram.py", "plot_pfss.py"],
  [("noise", "coefficients.py:noise"), ("randomize flag", "fibonacci_sphere.py:fibonacci_sphere")])
p("N04", "Failures are reported, never swallowed",
  "Errors raised while reading, converting, evaluating or writing propagate to the caller: the only exceptions handled inside the package are the unparsable-line errors of the file reader and optional-feature probes that do not touch results. Invalid arguments that the package documents as rejected raise an exception on every path before any result or file is produced.",
  ["inputs", "fault_sequences"], "every call path and every error",
  "Tests provoke almost no errors.",
  ["reader_writer.py", "plot_pfss.py", "coefficients.py", "converter.py", "pfss_magnetogram.py", "__init__.py"],
  [("narrow handlers", "reader_writer.py:read_magnetogram_file")])
p("N05", "Sphere sampling returns evenly spread unit vectors, one per requested point",
  "The sphere sampler returns exactly the requested number of points, each of unit length, with y coordinates (2i+1)/n - 1 and longitudes advancing by the golden angle from point to point, offset by a random start only when randomisation is requested.",
  ["inputs"], "all point counts, both settings",
  "Only used to draw test points.",
  ["fibonacci_sphere.py"], [("fibonacci_sphere", "fibonacci_sphere.py:fibonacci_sphere")])
# ---------------------------------------------------------------- plotting
p("S01", "Plot functions honour every option they accept",
  "Every option a plotting function documents or accepts affects the drawing: an option supplied by the caller is used or passed on on every path where it is meaningful, and is never silently replaced by a default.",
  ["configurations"], "all plotting entry points and options",
  "Plot tests are smoke tests with default options.",
  ["plots.py", "plot_zdi.py", "plot_pfss.py", "plot_lsd.py", "longitudinal_field.py"],
  [("option forwarding", "plot_zdi.py:plot_zdi_components/plot_zdi_field")])
p("S02", "Energy plots only use quantities the energy calculation provides",
  "Every energy quantity the summary, matrix and per-degree plots look up is one the energy calculation produces under that name, and each is drawn under the label it was looked up for.",
  ["inputs", "configurations"], "all magnetograms and plot types",
  "Smoke tests with one magnetogram.",
  ["plot_zdi.py", "zdi_magnetogram.py"],
  [("fraction names", "plot_zdi.py:plot_energy_summary"), ("dictionary keys", "zdi_magnetogram.py:ZdiMagnetogram.energy")])
p("S03", "Field maps show each component at its place in degrees with its own label",
  "Field maps draw each component's values unmodified, at azimuth and polar angles converted once from radians to degrees, azimuth on the horizontal axis; panels one to three hold the radial, polar and azimuthal component with the matching label, and marked extrema are those of the component drawn. The longitudinal field curve is drawn at its observation angles in degrees, with its mean marked and every value inside limits symmetric about zero.",
  ["inputs", "configurations"], "all fields, grids and map functions",
  "Smoke tests without inspection of the figure.",
  ["plots.py", "plot_zdi.py", "plot_pfss.py"],
  [("plot_components", "plots.py:plot_components"), ("plot_magnetic_field", "plots.py:plot_magnetic_field"), ("add_extrema", "plots.py:add_extrema")])
p("S04", "Slice plots cut along the requested plane",
  "A slice plot evaluates the field in the plane through the star's centre perpendicular to the requested axis and draws the field-line directions with that plane's own two in-plane field components and coordinates; any other axis name is rejected.",
  ["inputs", "configurations"], "all axes, extents, radii and coefficient sets",
  "The only slice test uses the x axis.",
  ["plot_pfss.py", "pfss_magnetogram.py"],
  [("normal_plane", "pfss_magnetogram.py:normal_plane"), ("plot_slice", "plot_pfss.py:plot_slice")])
p("S05", "LSD plots show the requested Stokes columns for any selection",
  "The LSD profile plot draws, for each requested parameter in the requested order, that parameter's value column (I: second, V: fourth, N: sixth) with the next column as error bar against the first column; the command accepts any non-empty selection of parameters, including a single one. The stack plot draws the V column of every profile in its own panel, and with common limits requested every panel gets the range that spans all panels' ranges.",
  ["inputs", "configurations"], "all parameter selections and data tables",
  "The LSD tests are skipped for lack of data.",
  ["plot_lsd.py", "bin/plot_lsd.py"],
  [("column offsets", "plot_lsd.py:plot_lsd_profile"), ("axes creation", "bin/plot_lsd.py:main")])
p("S06", "Spectrum intervals partition the samples at wavelength jumps",
  "The wavelength intervals of a spectrum are consecutive index ranges that together contain every sample exactly once, a new interval starting exactly where neighbouring wavelengths differ by more than the threshold.",
  ["inputs"], "all wavelength vectors and thresholds",
  "No running test calls the function.",
  ["plot_lsd.py"], [("wl_intervals", "plot_lsd.py:wl_intervals")])
p("S07", "Colour-bar tick helpers produce matching ticks and labels",
  "The symmetric-log tick helper yields one label per major tick, in order, each major value being plus or minus a power of ten over the stated exponent range together with zero; unit conversion of a tick label adds the exponent shift to the exponent and leaves labels without an exponent unchanged.",
  ["inputs"], "all exponent ranges, steps and label strings",
  "No test calls the helpers.",
  ["colorbar_manual_tickmarks.py"],
  [("generate_major", "colorbar_manual_tickmarks.py:generate_major"), ("tesla_to_gauss", "colorbar_manual_tickmarks.py:tesla_to_gauss")])
# ---------------------------------------------------------------- honest not-applicable
p("X01", "Map-to-coefficient projection recovers a band-limited field",
  "Projecting the field of a band-limited magnetogram sampled on a fine grid recovers its coefficients to within the discretisation error of the grid.",
  ["inputs"], "all band-limited magnetograms and grids", "Tests sample single coefficients on one grid.",
  ["converter.py"], [("get_zdi_coeffs", "converter.py:get_zdi_coeffs")])
p("X02", "Rotating a magnetogram rotates its field",
  "The radial field of a rotated magnetogram at a rotated point equals the field of the original at the original point.",
  ["inputs"], "all rotations and magnetograms", "Tests sample some angles on one magnetogram.",
  ["rotate.py"], [("rotate_magnetogram", "rotate.py:rotate_magnetogram")])
p("X03", "Numerical accuracy at high degree",
  "Field values and normalisation constants keep their relative accuracy up to the highest degrees used in practice.",
  ["inputs"], "all degrees up to 60 and all points", "Tests use degrees up to 15.",
  ["zdi_magnetogram.py", "pfss_magnetogram.py"], [("get_c_lm", "zdi_magnetogram.py:get_c_lm")])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
    assert q["statement"].count(". ") <= 2, q["id"]
out.write_text("".join(json.dumps(q, ensure_ascii=False) + "\n" for q in P))
print(len(P), "properties")
