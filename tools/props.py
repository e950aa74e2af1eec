I = 'geotecha/speccon/integrals.py'
S1 = 'geotecha/speccon/speccon1d.py'
P = 'geotecha/piecewise/piecewise_linear_1d.py'
SZ = 'geotecha/consolidation/smear_zones.py'
CM = 'geotecha/constitutive_models/'
PROOF = ('every obligation generated from the current source is discharged for all inputs and all array lengths; reals instead of '
         'floats, the executor\'s model of Python/numpy and callee contracts named in the evidence are trusted')

PROPS = [
 dict(id='C01', title='Overlap integrals of the sine basis are exact for every layered profile',
  statement='For any ordered set of positive eigenvalues and any stack of layers whose properties vary linearly with depth, the computed overlap matrices equal the exact integrals of one or two property profiles times each pair of sine basis functions. They are symmetric, the result is the same for the loop and array implementations and for the polyline entry points, and the inputs are left unmodified.',
  quant='all eigenvalue sets, numbers of layers, layer boundaries and property values', why='tests compare a handful of two- or three-layer cases against stored numbers; the formulas must hold for every number of layers, slopes and eigenvalue pair',
  files=[I, P], mech=[('overlap integrals', I + ':dim1sin_af_linear'), ('product overlap integrals', I + ':dim1sin_abf_linear')], note=PROOF),
 dict(id='C02', title='Stiffness integrals of the sine basis are exact for every layered profile',
  statement='For any ordered set of positive eigenvalues and any layered profile, the second-derivative matrix equals minus the integral of the profile times the product of the basis slopes, and the fourth-derivative matrix equals the integral of the two profiles times the product of the basis curvatures. Both are symmetric and independent of the implementation chosen.',
  quant='all eigenvalue sets, numbers of layers, layer boundaries and property values', why='tests compare a few stored matrices', files=[I],
  mech=[('diffusion matrix', I + ':dim1sin_D_aDf_linear'), ('beam matrix', I + ':dim1sin_DD_abDDf_linear')], note=PROOF),
 dict(id='C03', title='Load-profile projections on the sine basis are exact',
  statement='For any layered profiles, the projection vectors equal the exact integrals over depth of the product of two or three piecewise linear profiles with each sine basis function. The projection of the divergence of a profile times the gradient of a straight-line profile equals the end-point terms minus the integral of the profile times the basis slope, for every implementation and for the polyline entry points.',
  quant='all eigenvalue sets, layers and property values', why='tests compare a few stored vectors', files=[I],
  mech=[('two profiles', I + ':dim1sin_ab_linear'), ('three profiles', I + ':dim1sin_abc_linear'), ('gradient of a line', I + ':dim1sin_D_aDb_linear')], note=PROOF),
 dict(id='C04', title='Sine-series sampling, averaging and weighted integration over depth are exact',
  statement='Sampling the basis at depths, averaging it between two depths and integrating it against a layered profile between two depths each return exactly sin(mz), its mean and its weighted integral, for every depth pair including depths on layer boundaries. The generated eigenvalues satisfy the zero-value condition at the top and the zero-value or zero-slope condition at the bottom.',
  quant='all depths, depth pairs (upper above lower), layers and eigenvalues', why='tests sample a few depth pairs; depth pairs inside one layer, on boundaries and spanning many layers all take different code paths',
  files=[I, P], mech=[('sampling', I + ':dim1sin'), ('average', I + ':dim1sin_avg_between'), ('weighted integral', I + ':dim1sin_a_linear_between'), ('eigenvalues', I + ':m_from_sin_mx')], note=PROOF),
 dict(id='C05', title='Exponential-kernel convolutions of piecewise linear loads are exact',
  statement='For a load history made of ramps, constants and instantaneous steps, the returned values at each output time equal the exact integral, up to that time, of the decaying exponential kernel times the load (or times the load rate, steps included as impulses). Load after the output time has no influence, the load before the first point is zero, and every implementation agrees.',
  quant='all load histories with non-decreasing times, output times, decay rates and time scale factors', why='tests use a few load shapes; correctness for coincident times, times on break points and arbitrary numbers of segments cannot be enumerated',
  files=[I, P], mech=[('load', I + ':Eload_linear'), ('load rate', I + ':EDload_linear')], note=PROOF),
 dict(id='C06', title='Exponential-kernel convolutions of harmonic loads are exact',
  statement='For a load that is a piecewise linear amplitude times a sine or cosine of time, the returned values equal the exact convolution of the load (or load rate) with the exponential kernel at every output time, for all frequencies, phases and decay rates, and every implementation agrees.',
  quant='all amplitude histories, frequencies, phases, output times and decay rates', why='tests use a few shapes', files=[I],
  mech=[('cosine load', I + ':Eload_coslinear'), ('cosine load rate', I + ':EDload_coslinear'), ('sine load', I + ':Eload_sinlinear')], note=PROOF),
 dict(id='C07', title='Compiled Fortran integrals agree with their mathematical definition',
  statement='Every compiled integration routine returns the same exact integral as its interpreted counterpart for all inputs, so the choice of implementation never changes a result.',
  quant='all inputs of every compiled routine (neighbouring load times and magnitudes equal, or clearly apart: closer than 5e-7 of their sum counts as equal)', why='tests compare the compiled and interpreted code on a few inputs', files=['geotecha/speccon/ext_integrals.f95', I],
  mech=[('compiled routines', 'geotecha/speccon/ext_integrals.f95')], note=PROOF + '; the Fortran source is translated mechanically to the executor\'s input on every run'),
 dict(id='C08', title='Loads superpose exactly in the spectral solution',
  statement='The contribution of several simultaneous loads, each with its own depth profile, time history and optional frequency and phase, is the sum of the contributions of each load alone, with the eigenvector transformation applied and each load multiplied by its own depth profile and soil property profile. Absent loads contribute nothing.',
  quant='all numbers of loads, load kinds and soil profiles', why='tests use one or two loads', files=[S1],
  mech=[('superposition', S1 + ':dim1sin_E_Igamv_the_mvpl')], note=PROOF),
 dict(id='C09', title='Output reconstruction from spectral coefficients is exact and linear',
  statement='Pore pressure at depths, its average between depths and settlement over depth intervals are exactly the sine-series sum, its mean and its property-weighted integral of the spectral coefficients, plus the corresponding value of any prescribed boundary pressure. Prescribed boundary histories are interpolated linearly in depth between top and bottom values.',
  quant='all coefficient arrays, depths and boundary histories', why='tests only exercise complete runs with few depths', files=[S1],
  mech=[('values', S1 + ':dim1sin_f'), ('averages', S1 + ':dim1sin_avgf'), ('integrals', S1 + ':dim1sin_integrate_af')], note=PROOF),
 dict(id='C10', title='Vertical and radial consolidation model assembles the stated equation',
  statement='The vertical-radial consolidation model builds its storage, drainage and load terms so that each property given by the user (compressibility, vertical and horizontal permeability, drain efficiency, pumping, fixed pressures) enters exactly once with its reference value and depth profile, on break points common to the profiles that are multiplied. Properties that are not given contribute nothing.',
  quant='all combinations of given and omitted properties and profiles', why='tests cover a few combinations', files=['geotecha/speccon/speccon1d_vr.py', S1],
  mech=[('drainage matrix', 'geotecha/speccon/speccon1d_vr.py:Speccon1dVR')], note=PROOF),
 dict(id='C11', title='Well-resistance and combined models assemble the stated coupled equations',
  statement='The well-resistance and the combined consolidation models assemble their coupled storage, drainage and load matrices from the integrals of the given property profiles with the stated coupling signs, each property entering with its own reference value and break points common to the profiles multiplied. Omitted properties contribute nothing.',
  quant='all combinations of given and omitted properties and profiles', why='tests cover a few combinations', files=['geotecha/speccon/speccon1d_vrw.py', 'geotecha/speccon/speccon1d_vrc.py'],
  mech=[('coupled matrices', 'geotecha/speccon/speccon1d_vrw.py:Speccon1dVRW'), ('coupled matrices', 'geotecha/speccon/speccon1d_vrc.py')], note=PROOF),
 dict(id='C12', title='Unsaturated consolidation model assembles the stated coupled equations',
  statement='The unsaturated model assembles its air-water coupled storage and flow matrices and load vectors from the integrals of the given coefficient profiles, each coefficient entering with its own reference value, sign and profile, and each phase using its own time factor. Settlement combines the air and water contributions with their own compressibilities.',
  quant='all combinations of given and omitted coefficients', why='tests cover a few combinations', files=['geotecha/speccon/speccon1d_unsat.py'],
  mech=[('coupled matrices', 'geotecha/speccon/speccon1d_unsat.py:Speccon1dUnsat')], note=PROOF),
 dict(id='C13', title='Segment location in piecewise data is complete and unambiguous',
  statement='For monotonic data the segment reported as containing a value really contains it, one is reported whenever the value lies within the data, and the first or last candidate is chosen as requested. Segments reported as wholly before a value, between two values, or classified as ramps, constants and steps are exactly those with that relation.',
  quant='all monotonic data, with steps and repeated points, and all query values', why='tests list individual queries', files=[P],
  mech=[('containing', P + ':segment_containing_xi'), ('between', P + ':segments_between_xi_and_xj'), ('classification', P + ':ramps_constants_steps')], note=PROOF),
 dict(id='C14', title='Piecewise linear interpolation is exact, with end values held outside the range',
  statement='Interpolation of piecewise linear data returns the straight-line value within a segment, the requested side at a step, and the nearest end value outside the data, for increasing and decreasing data and any number of query points. The two data formats give the same values where they describe the same function.',
  quant='all monotonic data and query points', why='tests list individual queries', files=[P],
  mech=[('x-y form', P + ':interp_x_y'), ('segment form', P + ':interp_x1_x2_y1_y2'), ('product', P + ':interp_xa_ya_multipy_x1b_x2b_y1b_y2b')], note=PROOF),
 dict(id='C15', title='Integrals and averages of piecewise linear functions between limits are exact',
  statement='The integral of a piecewise linear function, and of a product of two such functions, between any two limits within the data equals the exact value, averages are that integral divided by the length, and superposed products with time-varying magnitudes add up load by load.',
  quant='all profiles and limits', why='tests list individual limits', files=[P],
  mech=[('integral', P + ':integrate_x_y_between_xi_xj'), ('product', P + ':integrate_x1a_x2a_y1a_y2a_multiply_x1b_x2b_y1b_y2b_between')], note=PROOF),
 dict(id='C16', title='Polyline data formats convert without loss',
  statement='Converting between point form and segment form preserves the described function, including steps; a polyline built from any accepted form reports consistent points and segments, inconsistent input is rejected, and removing superfluous points never changes the function.',
  quant='all valid point and segment data', why='tests convert a few examples', files=[P],
  mech=[('to segments', P + ':convert_x_y_to_x1_x2_y1_y2'), ('to points', P + ':convert_x1_x2_y1_y2_to_x_y'), ('polyline', P + ':PolyLine')], note=PROOF),
 dict(id='C17', title='Polyline arithmetic is pointwise and leaves its operands unchanged',
  statement='Adding, subtracting, multiplying or dividing polylines and numbers yields the polyline whose value at every position is that operation on the values of the operands, in either operand order (a number divided by a polyline: at its break points); products and quotients of two polylines are rejected. The operands are never modified.',
  quant='all polylines and scalars', why='tests check one or two examples and never re-read the operands', files=[P],
  mech=[('addition and subtraction', P + ':PolyLine._add_substract'), ('scaling', P + ':PolyLine.__mul__'), ('division', P + ':PolyLine.__truediv__')], note=PROOF),
 dict(id='C18', title='Monotonicity tests classify every sequence correctly',
  statement='A sequence is reported strictly or non-strictly increasing or decreasing exactly when every consecutive pair satisfies that relation, steps are reported exactly when repeated neighbouring positions occur, and the initial direction is that of the first change.',
  quant='all numeric sequences', why='tests list sequences', files=[P],
  mech=[('monotonicity', P + ':strictly_increasing'), ('direction', P + ':is_initially_increasing')], note=PROOF),
 dict(id='C19', title='Void ratio and effective stress relations are inverse and slope consistent',
  statement='For the constitutive models of void ratio against effective stress (linear, compression/recompression index, piecewise linear), converting stress to void ratio and back returns the starting value on the path followed (within the data, recompression not steeper than compression), and the reported compressibility is the negative derivative of void ratio with respect to stress. In the time-dependent model any two given parts of the initial state fix the others consistently, and stress steps, including steps at constant stress, add the exact creep integral.',
  quant='all parameters, stresses, preconsolidation stresses and strain paths', why='tests check isolated values', files=[CM + 'void_ratio_stress.py'],
  mech=[('models', CM + 'void_ratio_stress.py')], note=PROOF),
 dict(id='C20', title='Void ratio and permeability relations are mutually inverse',
  statement='For every permeability model, converting void ratio to permeability and back returns the starting value wherever the relation is invertible, and constant models return their constant for every input shape.',
  quant='all parameters and inputs', why='tests check isolated values', files=[CM + 'void_ratio_permeability.py'],
  mech=[('models', CM + 'void_ratio_permeability.py')], note=PROOF),
 dict(id='C21', title='Flow laws are odd, continuous and consistent with their slope and inverse',
  statement='For Darcian and non-Darcian flow laws, velocity is an odd continuous function of hydraulic gradient, the reported slope has the magnitude of its derivative (and, as documented, the sign of the gradient), and the gradient recovered from a velocity is the one that produced it, for scalars and arrays. Every choice of three given parameters yields a consistent law that keeps the given values.',
  quant='all parameters and gradients of either sign', why='tests check isolated values', files=[CM + 'velocity_hydraulic_gradient.py'],
  mech=[('models', CM + 'velocity_hydraulic_gradient.py')], note=PROOF),
 dict(id='C22', title='Soil water retention curves and their slopes are consistent',
  statement='For every soil water characteristic curve, the reported slope is the derivative of the curve with respect to suction, and the curve attains its stated value at its reference points. Relative permeability of water is the stated ratio of integrals over the curve; that of air is one in dry soil, zero in saturated soil, and decreases in between.',
  quant='all parameters and positive suctions', why='tests check isolated values', files=[CM + 'swcc.py'],
  mech=[('curves', CM + 'swcc.py')], note=PROOF),
 dict(id='C23', title='Drain smear-zone resistance formulas equal the exact integral of the profile',
  statement='For every smear-zone permeability profile (ideal, constant, linear, overlapping, parabolic, piecewise), the drain resistance parameter equals the exact equal-strain resistance integral of that profile, for all geometric ratios and permeability ratios including the degenerate ones handled by special formulas.',
  quant='all geometry and permeability ratios in the admissible range', why='tests compare isolated values', files=[SZ],
  mech=[('resistance', SZ + ':mu_constant')], note=PROOF),
 dict(id='C24', title='Smear-zone permeability and pore pressure profiles are consistent',
  statement='Radial permeability profiles take their stated values at the drain, smear boundary and beyond, and the radial pore pressure profiles satisfy the flow equation for that permeability with the drain value at the drain and zero gradient at the outer boundary, scaled to the stated average.',
  quant='all geometry and permeability ratios and radii', why='tests compare isolated values', files=[SZ],
  mech=[('permeability', SZ + ':k_parabolic'), ('pore pressure', SZ + ':u_constant')], note=PROOF),
 dict(id='C25', title='Drain spacing, efficiency and well-resistance conversions are consistent',
  statement='The influence radius for a drain pattern preserves the cell area per drain, the drain efficiency combines radius and resistance as stated, well resistance is the stated function of depth and its depth average, the spacing back-calculated from an efficiency reproduces that efficiency, and the non-Darcian resistance and pressure profiles are the (series) integrals of the power-law flow through the same annulus.',
  quant='all spacings, patterns, efficiencies and depths', why='tests compare isolated values', files=[SZ],
  mech=[('radius', SZ + ':re_from_drain_spacing'), ('efficiency', SZ + ':drain_eta'), ('well resistance', SZ + ':mu_well_resistance')], note=PROOF),
 dict(id='C26', title='Polygon and plane geometry results are exact and orientation independent',
  statement='The plane through points, polygon area, centroid and second moments of area (per unit area, about axes through the centroid, entry k measuring the spread along coordinate k) equal their exact integral definitions for planar polygons in any position, and do not depend on the starting vertex, the direction of traversal or whether the polygon is explicitly closed.',
  quant='all planar polygons', why='tests use a few rectangles and triangles', files=['geotecha/mathematics/geometry.py'],
  mech=[('area', 'geotecha/mathematics/geometry.py:polygon_area')], note=PROOF),
 dict(id='C27', title='Quadrature tables and rules integrate polynomials exactly',
  statement='Every tabulated Gauss-Legendre and Gauss-Kronrod rule has nodes inside the interval, symmetric weights summing to the interval length and integrates all monomials up to its stated degree; composite rules sum the rule over the given intervals.',
  quant='all tabulated orders, degrees, intervals and integrands', why='tests use a few integrands', files=['geotecha/mathematics/quadrature.py'],
  mech=[('tables', 'geotecha/mathematics/quadrature.py')], note=PROOF),
 dict(id='C28', title='Beam models satisfy their equations and place moving loads exactly',
  statement='The static deflection shape of a point load on an elastic foundation satisfies the beam equation away from the load, is symmetric about it, is one under it with zero slope, decays, and superposes for several loads. The moving-load deflection of an infinite beam satisfies the steady moving beam equation on either side of the load, is continuous with its first two derivatives, jumps by the load in the third and decays; dynamic amplification factors are the largest value of that deflection, rescaled for foundation stiffness. Moving loads sit exactly at start plus speed times time with their offsets, mirrored for negative speed, and enter, leave and pass points at exactly the times this motion implies. The beam model normalises raw inputs as documented, assembles the Galerkin equations of motion with every moving and stationary load, and its analytical solution solves them. Transition curves join their end levels and tanh transitions and their inverses agree.',
  quant='all positions, lengths, speeds and load groups', why='tests compare a few numbers', files=['geotecha/beam_on_foundation/specbeam.py'],
  mech=[('shape', 'geotecha/beam_on_foundation/specbeam.py:point_load_static_defl_shape_function')], note=PROOF),
 dict(id='C29', title='User input text can only contain the allowed constructs',
  statement='A restricted input script is accepted only if every syntax element in it is of an allow-listed kind, every function called by name and every import is allowed, every name read is a safe constant, allowed or assigned earlier in the script, and every attribute is an allowed one; anything else is rejected before any of it runs. Plain assignments of numbers, strings, lists and allowed calls are accepted.',
  quant='all input scripts', why='tests reject a few scripts; the guarantee is about every script', files=['geotecha/inputoutput/inputoutput.py'],
  mech=[('checker', 'geotecha/inputoutput/inputoutput.py:SyntaxChecker')], over=['programs', 'inputs'], note=PROOF),
 dict(id='C30', title='Input attribute validation accepts exactly the consistent combinations',
  statement='Attribute checks raise an error exactly when the documented rule is broken: wrong list status, unequal pair lengths, different depth limits, a partly filled all-or-none group, an empty at-least-one group or a missing implied attribute. Otherwise the object is left as it was, apart from the documented list wrapping and filling.',
  quant='all objects and attribute combinations', why='tests list a few combinations', files=['geotecha/inputoutput/inputoutput.py'],
  mech=[('checks', 'geotecha/inputoutput/inputoutput.py:check_attribute_combinations')], note=PROOF),
 dict(id='C31', title='Plotting helpers index, scale, merge and draw as documented',
  statement='Shades and tints stay within the valid range and reach the colour itself, black or white at the extreme factors; index maps for row- and column-ordered grids visit every cell exactly once; merged and copied option dictionaries leave the originals untouched. Styles cycle through the given lists; subplots go in their cells and share the requested axes; plots draw the given values with the given styles and labels at depth z*H, or at RLzero - z*H.',
  quant='all colours, factors, grid shapes and dictionaries', why='tests list a few', files=['geotecha/plotting/one_d.py'],
  mech=[('colour', 'geotecha/plotting/one_d.py:rgb_shade'), ('index map', 'geotecha/plotting/one_d.py:row_major_order_reverse_map')], note=PROOF),
 dict(id='C32', title='Analytical consolidation solutions satisfy their governing equations',
  statement='The analytical consolidation solutions return the series or closed form that satisfies their consolidation equation with the given soil properties, the drainage conditions at top and base (and layer interfaces), and the initial state or load history, and their averages, settlements, stresses and flows follow from the pore pressure: Terzaghi, Xie and Leo 2004 (large strain; volume of water and solids conserved), Deng et al. 2013 and 2014 (discharge capacity varying with depth or time), Lu et al. 2010, Tang and Onitsuka 2000, Cosenza and Korosak 2014, and the layered Schiffman and Stein 1970 (free draining, impervious or impeded ends) and Nogami and Li 2003 (vertical and radial flow). The result tables hold the quantities they name.',
  quant='all depths, times, drainage conditions, soil properties, load histories and numbers of terms',
  why='tests compare a few published examples', files=['geotecha/consolidation/terzahi.py', 'geotecha/consolidation/xieandleo2004.py', 'geotecha/consolidation/dengetal2013and2014.py', 'geotecha/consolidation/luetal2010.py', 'geotecha/consolidation/tangandonitsuka2000.py', 'geotecha/consolidation/cosenzaandkorosak2014.py', 'geotecha/consolidation/schiffmanandstein1970.py', 'geotecha/consolidation/nogamiandli2003.py'],
  mech=[('Terzaghi', 'geotecha/consolidation/terzahi.py:terzaghi_1d'), ('large strain', 'geotecha/consolidation/xieandleo2004.py:XieAndLeo2004'), ('layered', 'geotecha/consolidation/schiffmanandstein1970.py:SchiffmanAndStein1970._make_BC'), ('radial', 'geotecha/consolidation/tangandonitsuka2000.py:tangandonitsuka2000')], note=PROOF),
]
NOT_APPLICABLE = {}
