GVN_NOTE = ('Sound for the fragment the value-graph translator understands (gated paths, summarised loops, summation binders); a difference is reported only when the two '
            'terms disagree under several independent random interpretations of their atoms, equality is decided with error probability below 1e-30. Real arithmetic '
            '(rounding ignored). Anything the translator cannot follow is counted as undecided and never reported.')
INTEG = 'geotecha/speccon/integrals.py'
PWF = 'geotecha/piecewise/piecewise_linear_1d.py'

P('C01', 'Inputs are left unchanged; calls are independent of each other',
  'No function, method or constructor changes an object its caller handed in (arrays, lists, dicts; directly, through views, elements, helpers or attributes of an object that kept it), a default value, or a '
  'module-level or class-level container; calculations and plots leave the input attributes of an analysis object as they are, so that they can be repeated; process-wide settings (floating point errors, '
  'precision, random state, warning filters, working directory) stay as they are. Exceptions are the documented ones (shanks, shanks_table, the EPUS stress path, mp_laplace precision, array print prefix, seeds).',
  ['inputs', 'histories'],
  'for all inputs and all histories of calls (every in-place change of the source, through all aliases)',
  'Tests compare results, not the arguments afterwards, and mostly pass fresh lists: a change in place shows only for array arguments that are used again.',
  ['geotecha/'],
  [('copy_attributes_between_objects', 'geotecha/inputoutput/inputoutput.py'), ('PolyLine', 'geotecha/piecewise/piecewise_linear_1d.py'), ('shanks', 'geotecha/mathematics/quadrature.py')],
  'interprocedural may-alias and effect analysis', 'other',
  'May-analysis over names and known changing operations; objects of unknown class are changed only through known method names.')

P('C04', 'Input text runs only whitelisted syntax, and nothing of it before it is checked',
  'With a SyntaxChecker, make_module_from_text executes text only after the checker has looked at every node of exactly the tree that is executed; the checker refuses every node type, called name, read name and '
  'attribute that is not on its lists (names the text itself assigns may be read but do not become callable or attributes), for any nesting. The lists contain nothing that imports modules, opens files, '
  'evaluates code or reaches attributes by name or through double underscores, and hold only what was asked for. All programs read input text through the documented checker; something that is not a checker is refused.',
  ['inputs'],
  'for all texts (structural induction over syntax trees), all combinations of listed and unlisted names',
  'Tests try a few forbidden texts; a node class whose children are no longer visited, or a list entry too many, lets arbitrary code through for texts no test contains.',
  ['geotecha/inputoutput/inputoutput.py', 'geotecha/speccon/speccon1d_vr.py', 'geotecha/consolidation/schiffmanandstein1970.py'],
  [('SyntaxChecker', 'geotecha/inputoutput/inputoutput.py'), ('make_module_from_text', 'geotecha/inputoutput/inputoutput.py')],
  'abstract interpretation of each visitor method on every syntax class and name class (induction step), evaluation of the whitelists, effect order of the loaders', 'other',
  'File access of listed numpy functions (load, save, ...) is documented behaviour and not judged.')

P('C07', 'Output files: on request only, documented names, nothing overwritten',
  'Data, parsed and original input, figures and plots appear iff the corresponding flag is set; the number of new output is one step after the highest number used with that very prefix (the highest itself when overwriting), '
  'in the documented folder; tables go to one file each with heading, row and column labels, and are left unchanged; the parsed input has one line per attribute that reads back as its value; figures carry their label. '
  'Command line options select the documented files, processed in order in their own folder even after one fails; working folder and array printing are as before afterwards.',
  ['inputs', 'configurations', 'histories'],
  'for all flags, folder contents, prefixes, labels and option combinations (by classes)',
  'Tests use an empty folder or one listing and plain prefixes; overwriting needs a particular prefix and folder content, lost state a failing file.',
  ['geotecha/inputoutput/inputoutput.py', 'geotecha/speccon/speccon1d.py', 'geotecha/consolidation/schiffmanandstein1970.py', 'geotecha/consolidation/nogamiandli2003.py'],
  [('next_output_stem', 'geotecha/inputoutput/inputoutput.py'), ('save_grid_data_to_file', 'geotecha/inputoutput/inputoutput.py')],
  'effect analysis: abstract interpretation on a model of the file system, effect sequences compared with the documented ones', 'other',
  'Folder contents and prefixes by representative classes; interrupts (KeyboardInterrupt) not considered.')

P('C08', 'Loop, array and compiled forms of each spectral integral give equal values',
  'Every spectral integral (over depth or over time) returns the same array whichever of its implementations is selected: plain loops, array expressions, or the compiled '
  'Fortran routine. This holds for every element, including diagonal and off-diagonal terms, every number of layers or load segments, and every kind of load segment '
  '(ramp, constant, step; not started, under way or complete).',
  ['inputs', 'configurations'],
  'for all eigenvalues, layer profiles with any number of layers, load histories with non-decreasing times, query times, and every implementation option',
  'Tests compare the implementations on a handful of two- or three-layer profiles and a few eigenvalues; a wrong term that cancels or is multiplied by zero there goes unseen, '
  'and the number of layers, terms and segments is unbounded.',
  [INTEG, 'geotecha/speccon/ext_integrals.f95'],
  [('scalar / vectorized / fortran branches', INTEG), ('compiled routines', 'geotecha/speccon/ext_integrals.f95')],
  'value-graph equivalence (global value numbering by random interpretation) of Python loops, numpy expressions and Fortran source', 'translation_validation', GVN_NOTE)

P('C10', 'Each spectral integral equals the integral it is documented to evaluate',
  'The value returned by each spectral integral is exactly the documented integral: of products of the piecewise-linear depth properties with the sine basis and its derivatives '
  'over the layers, or of the piecewise-linear load (optionally times a cosine or sine, or differentiated) with the decay exponential up to the query time. '
  'The basis helpers return the sine basis, its mean over an interval, and eigenvalues that satisfy the chosen boundary condition.',
  ['inputs', 'configurations'],
  'for all eigenvalues, layer end depths and property values, load segments, query times, frequencies and phases',
  'Tests pin a few numerical values produced once by a computer algebra system; they do not cover unequal layer values, every segment kind and position, or all index pairs.',
  [INTEG, 'geotecha/speccon/ext_integrals.f95'],
  [('closed-form integration per layer / segment', INTEG)],
  'fundamental-theorem check on the value graph: symbolic end-point derivatives compared with the defining integrand', 'other', GVN_NOTE)

P('C11', 'Line-object versions of functions pass the right line component to each input',
  'Functions that take piecewise-linear line objects return exactly what the corresponding array function returns for the components of those lines: tops and bottoms, '
  'or coordinates, of the right line in the right place, with every other argument and option passed on unchanged. Lines whose pieces are combined are first refined to common break points.',
  ['inputs', 'configurations'],
  'for all lines, evaluation points, and options of every line-object function in the integral and piecewise-linear modules',
  'The wrappers are tested with one or two short lines, often the same line for several arguments, so swapped tops/bottoms or swapped lines need not show.',
  [INTEG, PWF], [('p* wrappers', INTEG), ('p* wrappers', PWF)],
  'interprocedural argument-provenance analysis on the value graph', 'other',
  'Decides for each formal parameter which component of which line reaches it; a wrapper that no longer forwards to the public array function is counted as undecided.')

SZF = 'geotecha/consolidation/smear_zones.py'
P('C20', 'Smear-zone profiles, mu and permeability agree with the radial flow law',
  'For every smear-zone scheme (ideal, constant, linear, parabolic, overlapping linear, piecewise constant, piecewise linear, non-Darcy piecewise constant) the pore pressure '
  'profile, the permeability profile and mu (or beta) are mutually consistent: permeability times pore pressure gradient equals (uavg-uw)/(mu+muw)*(1/si-si/n^2) in every zone, '
  'the profile is continuous and starts from uw+(uavg-uw)*muw/(mu+muw) at the drain, mu is the integral of (1-si^2/n^2)^2/(si k(si)), scaled by n^2/(n^2-1), special cases (no smear, kap=1, '
  's=kap, equal zones) agree with the general expressions, and drain spacing, well-resistance and eta helpers follow their definitions, back-calculation included.',
  ['inputs', 'configurations'],
  'for all admissible n, s, kap, radii, zone counts and boundary pore pressures, special cases included',
  'The tests compare with a few literature values; errors in one zone of the profile, in a special case, or with non-default uw, muw or zone counts do not show there.',
  [SZF], [('mu_*, u_*, k_* functions', SZF)],
  'symbolic differentiation and integration on the value graph, compared with the governing flow law', 'other', GVN_NOTE)

P('C21', 'Arguments outside the documented range are rejected, valid ones accepted',
  'Drain and smear-zone functions (mu, u, k, beta, spacing, well resistance) never return a value when n<=1, s<1, kap<=0, s>n, si<1, si>n, non-Darcy exponent <=1, '
  'spacing<=0 or piecewise zone lists of different lengths / decreasing radii are given (each where documented), whichever element of an array argument is at fault; '
  'piecewise-linear interpolation, integration and averaging reject coordinate lists of different length or segments that do not join; the sine eigenvalue helper rejects unknown boundary codes. '
  'Valid arguments, limits included, are accepted.',
  ['inputs'],
  'for all argument values and array lengths; each class of invalid value in each position of an array argument',
  'Tests raise for one wrong value in one place; the guards hide behind array reductions (any/all) that are easy to get wrong for later elements.',
  [SZF, PWF, INTEG], [('guards (raise ValueError)', SZF), ('segment checks', PWF), ('m_from_sin_mx', INTEG)],
  'abstract interpretation of guard conditions (path conditions of every raise)', 'other', GVN_NOTE)

CONS = 'geotecha/consolidation/'
P('C32', 'Terzaghi, Xie&Leo and Zhu&Yin solutions satisfy their equations and definitions',
  'For the single-layer closed forms terzaghi_1d(_flowrate), XieAndLeo2004 (PTIB and PTPB, every public method) and zhuandyin2012, every term of the returned pore pressure satisfies the governing '
  'consolidation equation, the drained/impervious boundary conditions hold at all times, and the coefficients are those the initial condition requires. Flow rate, degrees of consolidation, settlement, '
  'void ratios, particle/fluid velocities, permeability, effective/total stress and pore pressure follow from that pore pressure by their definitions, and each array element belongs to its own depth and time.',
  ['inputs', 'configurations'],
  'for all depths, times, thicknesses, soil parameters, surcharges and numbers of terms, and each drainage condition',
  'Tests compare a handful of digitised curve points at one parameter set, and most methods (stresses, velocities, void ratios) have no test at all.',
  [CONS + 'terzahi.py', CONS + 'xieandleo2004.py', CONS + 'zhuandyin2012.py'],
  [('closed-form series', CONS + 'terzahi.py'), ('XieAndLeo2004 class', CONS + 'xieandleo2004.py'), ('eigenfunction series in Bessel functions', CONS + 'zhuandyin2012.py')],
  'symbolic differentiation and integration of the value graph, compared with the governing equations', 'other', GVN_NOTE)

P('C33', 'Vertical-drain and fractional-derivative closed forms satisfy their equations',
  'For tangandonitsuka2000, dengetal2013, dengetal2014, luetal2010 and cosenzaandkorosak2014, the returned pore pressure is the modal solution of the documented consolidation equation (radial and vertical '
  'drainage, smear, well resistance, time- or depth-dependent drain permeability, stone column, fractional derivative terms), with the stated boundary conditions, initial condition or loading history, and '
  'average pore pressure, degree of consolidation and settlement follow from it. Optional arguments (separate output times, defaults) give the same solution.',
  ['inputs', 'configurations'],
  'for all depths, times, geometries, soil parameters, load histories (steps, ramps, holds, query before / inside / after each piece), drainage conditions and numbers of terms',
  'Only one of the five has tests, for one load history; the rest are exercised only by plotting examples.',
  [CONS + 'tangandonitsuka2000.py', CONS + 'dengetal2013and2014.py', CONS + 'luetal2010.py', CONS + 'cosenzaandkorosak2014.py'],
  [('closed-form series', CONS + 'tangandonitsuka2000.py'), ('closed forms', CONS + 'dengetal2013and2014.py'), ('series', CONS + 'luetal2010.py'), ('Laplace-domain solution', CONS + 'cosenzaandkorosak2014.py')],
  'symbolic differentiation and integration of the value graph, compared with the governing equations', 'other',
  GVN_NOTE + ' The numerical inverse Laplace transform is taken as given (an uninterpreted operator applied to the transform the code builds).')

P('C35', 'Layered and unsaturated soil solutions satisfy their governing equations',
  'SchiffmanAndStein1970, NogamiAndLi2003 and shanetal2012: the eigenfunctions satisfy the drained, impervious or impeded conditions at top and base, continuity of pore pressure and of flow at every layer '
  'interface and the same time rate in all layers (and, with a drain, zero pressure at the drain and no flow at the outer radius); the roots asked for are those of that characteristic equation; each mode has the '
  'coefficient of a uniform (or the given linear) start and the response to the load history (ramps, steps, sinusoidal and exponential loads and boundary pressures); pore pressure at each depth uses its own '
  'layer; average pore pressure and settlement follow from it. Depths and times may be a number, a list or an array where documented. Unknown boundary conditions and incomplete loads are refused.',
  ['inputs', 'configurations'],
  'for all layer thicknesses, permeabilities, compressibilities, depths, times, load histories and eigenvalues, and every combination of boundary conditions',
  'One profile with drained ends is tested for one of the three programs; the other two have no tests; interface and impeded conditions show only for contrasting layers.',
  [CONS + 'schiffmanandstein1970.py', CONS + 'nogamiandli2003.py', CONS + 'shanetal2012.py'],
  [('characteristic matrix and series', CONS + 'schiffmanandstein1970.py'), ('matrix transfer', CONS + 'nogamiandli2003.py'), ('coupled modes', CONS + 'shanetal2012.py')],
  'value graph of the whole calculation with root finding and linear solves uninterpreted; the matrices and functions handed to them, and the sums built from what they return, compared with symbolically '
  'differentiated and integrated eigenfunctions', 'other',
  GVN_NOTE + ' Root finding returns arbitrary values (C52); linear systems and 2x2 eigenvalue problems are exact. One to three layers and one to two terms per direction.')

CM = 'geotecha/constitutive_models/'
P('C18', 'Soil compressibility and permeability models: inverse maps, slopes and creep',
  'For the Cc-Cr, av, piecewise-linear (linear or log axes), Ck, constant-permeability, user-function and Yin-Graham models: void ratio and stress (or permeability) methods are inverse maps wherever '
  'defined, pass through the reference points with the documented form, av_from_stress is minus the slope of the curve in use (recompression or virgin), array elements get their own value, plotted points '
  'lie on the curve, user functions receive value and stored arguments, and the Yin-Graham creep increments (changing or constant stress, repeated steps, CRSN/CRSS simulations) follow one rate equation.',
  ['inputs', 'configurations', 'histories'],
  'for all parameters and stresses, preconsolidation states, segment of a piecewise curve, point order, log/linear axes and sequence of creep steps; piecewise curves decided at four points',
  'Tests check single values of each branch with default options; the branches taken for log axes, reversed tables, arrays of mixed states and repeated creep steps multiply beyond them.',
  [CM + 'void_ratio_stress.py', CM + 'void_ratio_permeability.py'],
  [('model classes', CM + 'void_ratio_stress.py'), ('model classes', CM + 'void_ratio_permeability.py')],
  'symbolic evaluation and differentiation of the value graph, compared with the constitutive law', 'other',
  GVN_NOTE + ' Root finding, ODE integration and fixed-point iteration are taken as given: the equations handed to them are what is decided.')

P('C19', 'Flow laws and soil-water retention curves: inverse maps, slopes, continuity',
  'Darcy and Hansbo flow models: every way of defining the Hansbo law gives parameters related by i0=iL(n-1)/n and klinear=kstar n iL^(n-1) (Darcy when n=1, iL=0 or i0=0), velocity and gradient methods are '
  'inverse, odd and continuous at iL, dv_di is the slope for positive gradients, strain rate follows the eta form; incomplete definitions are rejected. Fredlund-Xing and Pham-Fredlund curves have the documented '
  'form, dw_dpsi is their derivative (with and without correction), relative permeability is the documented ratio of midpoint sums, discrete-curve and air permeability likewise; array elements get their own value.',
  ['inputs', 'configurations'],
  'for all parameter values and gradients below, at and above the limit, every defining triple, suctions and array elements; sums decided for 2-3 intervals and discrete curves of five points',
  'Doctests evaluate one parameter set per definition; the limiting and Darcy cases, derivatives, negative gradients and mixed arrays are not sampled.',
  [CM + 'velocity_hydraulic_gradient.py', CM + 'swcc.py'],
  [('flow laws', CM + 'velocity_hydraulic_gradient.py'), ('retention curves', CM + 'swcc.py')],
  'symbolic evaluation and differentiation of the value graph, compared with the documented law', 'other',
  GVN_NOTE + ' Convergence of the fixed-point iteration for n is taken as given; the equation iterated is what is decided.')

SP = 'geotecha/speccon/'
SPN = GVN_NOTE + (' Depth integrals of the coefficients and time responses of the loads are uninterpreted multilinear functionals here (their values are decided by C08 and C10), and the eigen '
                  'decomposition and matrix inverse are taken as given. Decided for two and three series terms, two layers and up to two loads of each kind.')
SPT = 'The end-to-end tests compare a few cases with one load, homogeneous soil and dT=1 against analytical values; combinations of loads, drainage conditions and options multiply beyond them.'
SPQ = ('for all property and load values, drainage conditions, subsets and numbers of loads (cyclic or not), normalisers, output depths, intervals, times and selected output times')
P('C40', 'Spectral building blocks return the documented terms for every option',
  'For every dim1sin_* function of speccon1d (boundary terms a*D[u,t], a*b*u, a*b*D[u,t], D[a*D[u,z],z], point terms, distributed loads, moving loads, f(t)*Ipsiw*theta, pressure, mean pressure, weighted integral): '
  'the result is the sum over all given lines (top, bottom, loads) of the time response of the line (with its own omega and phase, dT as given or 1) times Igamv times theta, theta being the integral of sin(mZ) with the '
  'documented term and the boundary distribution of the drainage condition, with the entries named by theta_zero_indexes set to zero; lines, coefficients or phases left out contribute nothing.',
  ['inputs', 'configurations'], 'for all coefficient, boundary and load lines, eigenvalues, matrices and times, both drainage conditions and every combination of optional arguments',
  'The programs call the blocks with one pattern of options each; direct use with other options (absent lines, both ends cyclic, list or slice of zeroed entries, dT left out, moving loads) is not covered by any test.',
  [SP + 'speccon1d.py'],
  [('building blocks', SP + 'speccon1d.py')],
  'abstract interpretation to value graphs over uninterpreted functionals; documented matrix product compared by value numbering', 'other',
  'Three series terms, two layers, up to two lines of each kind and two times, all values symbolic. The depth integrals and time responses themselves are decided by C08 and C10.')
P('C36', 'speccon1d_vr results solve the documented vertical/radial drainage equation',
  'For Speccon1dVR: from make_time_independent_arrays, make_time_dependent_arrays and make_output, the pore pressure at depth, average pore pressure and settlement are the Galerkin (sine series) solution of '
  'the documented equation: the eigen system is that of mv, kv (dTv), kh.et (dTh) and fixed pore pressures; surcharge, vacuum, boundary pressures (bottom gradient times H when drn=1), fixed pressures and pumping '
  '(divided by mvref H) each contribute their load vector, cyclic loads included, all superposed; results are one row per depth or interval, one column per selected time, and do not depend on dT.',
  ['inputs', 'configurations'], SPQ, SPT,
  [SP + 'speccon1d_vr.py', SP + 'speccon1d.py', 'geotecha/piecewise/piecewise_linear_1d.py'],
  [('assembly, loads, output', SP + 'speccon1d_vr.py'), ('load vectors and output series', SP + 'speccon1d.py')],
  'abstract interpretation to value graphs over uninterpreted functionals; Galerkin form compared by value numbering', 'other', SPN)
P('C37', 'speccon1d_vrw results solve the documented equations with well resistance',
  'For Speccon1dVRW: with the drain pressure eliminated (psi = psi_soil - S psi_w^-1 S), pore pressure in the soil, average pore pressure and settlement are the Galerkin solution of the documented equations under '
  'surcharge, boundary pressures (shared by soil and drain), fixed pressures and pumping; the drain pore pressure follows from the flow balance of the drain (kw, dTw, kh, et, dTh) and takes the boundary pressure '
  'at the ends (bottom gradient times H when drn=1); results do not depend on dT.',
  ['inputs', 'configurations'], SPQ, SPT,
  [SP + 'speccon1d_vrw.py', SP + 'speccon1d.py', 'geotecha/piecewise/piecewise_linear_1d.py'],
  [('assembly, loads, output', SP + 'speccon1d_vrw.py'), ('load vectors and output series', SP + 'speccon1d.py')],
  'abstract interpretation to value graphs over uninterpreted functionals; Galerkin form compared by value numbering', 'other', SPN)
P('C38', 'speccon1d_vrc results solve the documented stone column equations',
  'For Speccon1dVRC: overall, soil and column pore pressures (at depth and averaged) and settlement are the Galerkin solution of the documented equations: u = (1-alpha) us + alpha uc with alpha = 1/n^2, equal strain '
  'and flow continuity in soil, column and across the interface, under surcharge and boundary pressures shared by soil and column (bottom gradient times H when drn=1); results do not depend on dT.',
  ['inputs', 'configurations'], SPQ, SPT,
  [SP + 'speccon1d_vrc.py', SP + 'speccon1d.py', 'geotecha/piecewise/piecewise_linear_1d.py'],
  [('assembly, loads, output', SP + 'speccon1d_vrc.py'), ('load vectors and output series', SP + 'speccon1d.py')],
  'abstract interpretation to value graphs over uninterpreted functionals; Galerkin form compared by value numbering', 'other', SPN)
P('C39', 'speccon1d_unsat results solve the documented coupled air and water equations',
  'For Speccon1dUnsat: water and air pressures (at depth and averaged) and the air, water and total settlements are the Galerkin solution of the documented coupled equations (m1kw, m2w, m1ka, m2a, porosity and '
  'saturation storage, water and air flow) under surcharge and any subset of the four boundary pressures (bottom gradient times H when drn=1); settlements integrate the documented strains '
  'm1k(sigma-ua)+m2(ua-uw) of each phase times H mvref; results do not depend on dT.',
  ['inputs', 'configurations'], SPQ, SPT,
  [SP + 'speccon1d_unsat.py', SP + 'speccon1d.py', 'geotecha/piecewise/piecewise_linear_1d.py'],
  [('assembly, loads, output', SP + 'speccon1d_unsat.py'), ('load vectors and output series', SP + 'speccon1d.py')],
  'abstract interpretation to value graphs over uninterpreted functionals; Galerkin form compared by value numbering', 'other', SPN)

P('C31', 'Optional arguments left out take their documented default value',
  'For every public function, method and class constructor whose documentation lists its parameters: an argument documented with a default value has exactly that value when it is left '
  'out, an argument documented as optional can be left out, and every documented argument is accepted under its documented name.',
  ['inputs', 'configurations'],
  'for all public functions of all parts of the package and all combinations of arguments given and left out',
  'Tests call a function with the arguments they care about and rarely compare "left out" with "given the documented default"; many options are never left out (or never given) in any test.',
  ['geotecha'],
  [('signatures and docstrings', 'geotecha')],
  'consistency analysis of documented parameters against constant-folded signatures over the syntax tree', 'other',
  'About 350 documented functions and 1500 documented arguments. Defaults that are described in words ("the number of loads") are not decided here. Documented defaults of attributes in program input are decided by C13.')

P('C30', 'Piecewise-linear functions: segments, interpolation, integrals, sub-division',
  'The functions on piecewise-linear data select exactly the segments their definition names (ramps, constants and steps; containing, before or between given points; first or last '
  'at a break point), return values on the line, exact integrals and means of a line or of the product of two lines between two points, convert between the point and the segment '
  'form without changing the line, reorder and sub-divide keeping every original point, and drop only points inside straight runs. Caller data is not changed. '
  '(Integrals and means are over intervals of non-zero length inside the data, on lines given in increasing order.)',
  ['inputs', 'configurations'],
  'for all piecewise-linear data (any values, any spacing, with steps first, inside or last, repeated steps, decreasing data) and all query points before, on, between and after the break points',
  'Tests use a few short lines with round numbers; every order relation between break points and query points combined with every kind of segment is far beyond what they sample.',
  [PWF],
  [('segment selection, interpolation, integration, conversion, sub-division', PWF)],
  'abstract interpretation with an order domain (symbolic levels with interval-bounded gaps) and value-graph comparison with the definitions', 'other',
  'Values and gaps are symbolic, order types are enumerated (up to six break points, steps anywhere). Comparisons are decided by polynomial interval bounds; values compared by random interpretation.')

P('C22', 'PolyLine objects behave as the functions they represent',
  'A PolyLine built from points, from x and y arrays or from segment arrays is the same line; +, -, *, / of PolyLines and of PolyLines with numbers (either side) are pointwise on the '
  'union of break points, keeping steps (limits from both sides); combining lines on common break points keeps each function; scalar operands and the operands themselves are unchanged; '
  'equality means equal points within tolerance, an unsupported operand is a TypeError and comparison with anything else is False.',
  ['inputs', 'configurations'],
  'for one to three lines of any values with break points that coincide, interleave, overlap, nest, lie apart, step, or run backwards',
  'Tests add and multiply two or three fixed lines; the interplay of steps, shared break points and reversed lines is combinatorial.',
  [PWF], [('PolyLine and the common-break-point helpers', PWF)],
  'abstract interpretation of client programs with an order domain; one-sided limits compared at every level', 'other',
  'Lines are placed on symbolic levels; 23 pairs and 4 triples of order types with symbolic values.')

MA = 'geotecha/mathematics/'
P('C23', 'Quadrature rules, their application over intervals, and Shanks extrapolation',
  'The tabulated Gauss-Legendre rules (2-20, 32, 64, 100 points) and Gauss-Kronrod rules (7, 10, 15, 20, 25, 30) have the stated number of increasing nodes in (-1, 1) with positive '
  'weights and integrate polynomials exactly (to rounding) to degree 2n-1, the Kronrod rule to 3n+1; any other n is refused. gl_quad and gk_quad return, for every interval [a, b] (or summed over '
  'the intervals), for scalar and array integrands and extra arguments, the mapped sum of the rule; gk_quad also |fine - coarse|. shanks is the iterated Shanks transform of the terms from the '
  'start index (rows of an array separately; last term when it is undefined) and shanks_table the Wynn epsilon table, also when an existing table is extended.',
  ['inputs', 'configurations'],
  'for all tabulated rules and polynomial degrees, all intervals, integrands, sequences and start indices',
  'Tests integrate a few functions to loose tolerances: one wrong digit in one of some thousand constants, or a wrong axis for array integrands, goes unseen.',
  [MA + 'quadrature.py'], [('tables', MA + 'quadrature.py'), ('gl_quad, gk_quad, shanks, shanks_table', MA + 'quadrature.py')],
  'exact rational arithmetic on constants extracted from the source; value-graph comparison by abstract interpretation', 'other',
  'Constants are those in the source text. Integrands and sequences symbolic; 1-3 intervals, up to 7 terms.')

P('C27', 'Integral transforms evaluate the documented integral for every option',
  'Fourier, cosine, sine, Hankel and Laplace transforms (objects and functions, forward and inverse, one and several dimensions) pass to the quadrature the documented integrand, weight, interval, '
  'factor and sign for every combination of real/imaginary/complex function and even/odd/no symmetry; the vectorised transforms return the sum (or the Shanks extrapolation from shanks_ind of the '
  'partial sums) over the intervals between zeros of the kernel of Gauss sums; the multiple transform applies the given transforms in turn with their own options; the Laplace inversion is the '
  'documented Talbot sum; documented defaults are used.',
  ['inputs', 'configurations'],
  'for all integrands (an uninterpreted linear functional), transform variables, orders, symmetry flags, option combinations, numbers of intervals and points',
  'Tests transform a few functions with the default flags; flags that only matter for imaginary or asymmetric functions, or several points at once, are not exercised.',
  [MA + 'fourier.py', MA + 'hankel.py', MA + 'laplace.py', MA + 'mp_laplace.py', MA + 'multi_transform.py'],
  [('transforms', MA + 'fourier.py'), ('transforms', MA + 'hankel.py'), ('inversion', MA + 'laplace.py'), ('nesting', MA + 'multi_transform.py')],
  'abstract interpretation; the quadrature routine is an uninterpreted linear functional of its integrand', 'other',
  'Accuracy of the numerical quadrature is not decided (see not_applicable).')

P('C41', 'Planes, areas, centroids, second moments and volumes of polygons and polyhedra',
  'For a plane polygon in space (or with two coordinates), given in either order and with or without repeating the first point: eqn_of_plane returns the unit normal on the side from which the points run '
  'counter-clockwise and d with n.p + d = 0; polygon_area the (positive) area; polygon_centroid the centroid in all three coordinates; polygon_2nd_moment_of_area the mean squared distance from '
  'the centroid along x, y, z. polyhedron_volume of faces seen counter-clockwise from outside is the volume (negative when reversed), also with faces parallel to axes and for make_hexahedron; '
  'xyz_from_pts returns the coordinates (closed on request); depth_to_reduced_level returns H z or rlzero - H z.',
  ['inputs'],
  'for all planar polygons (triangle, convex, concave) in 17 classes of orientation including planes parallel, or almost parallel, to axes and to coordinate planes, and tetrahedra and parallelepipeds',
  'Tests use a few shapes in convenient positions (counter-clockwise, normal along z, centroid at height 0).',
  [MA + 'geometry.py', MA + 'transformations.py'], [('polygon and polyhedron functions', MA + 'geometry.py')],
  'value-graph comparison with closed forms by abstract interpretation with interval-bounded symbolic vertices', 'other',
  'Vertices p0 + aU + bV with all of a, b, U, V, p0 symbolic; path conditions (projection axis, zero components) decided by interval bounds.')

P('C25', 'Every name, attribute, import and call in the package resolves',
  'No code path of the package, error branches and plotting code included, uses a name that is not defined or not yet assigned on that path, an attribute its module, class or library does not have, '
  'a module that cannot be imported, a call whose arguments the called function (of the package or of an installed library) cannot accept, or a format string that its arguments do not fit. '
  'So no public function ends in NameError, UnboundLocalError, AttributeError or a call TypeError of its own making.',
  ['inputs', 'configurations'],
  'for all functions, methods and branches of every module outside the test directories',
  'Python reports these only when the line runs; most plotting, error-handling and rarely selected branches are never run by the tests.',
  [SPF if 'SPF' in globals() else 'geotecha/speccon/speccon1d.py', 'geotecha/consolidation/schiffmanandstein1970.py', 'geotecha/plotting/one_d.py', 'geotecha/inputoutput/inputoutput.py', 'geotecha/beam_on_foundation/specbeam.py'],
  [('name, attribute and call resolution', 'geotecha')],
  'scope and binding resolution, path-sensitive definite assignment, class-attribute inference, and call-signature checks over the whole syntax tree', 'other',
  'A reference is reported only if it cannot resolve on any account (class closed under inheritance, no dynamic attribute stores, name unbound on a path whose branch conditions do not contradict each other; loops are taken to run at least once, chains of comparisons with literals to be exhaustive); '
  'library names and signatures come from the libraries installed in the environment of the package. Objects of unknown type are not judged.')

P('C13', 'Programs refuse incomplete or inconsistent input and fill in documented defaults',
  'check_input_attributes (and therefore make_all) of speccon1d_vr, _vrw, _vrc, _unsat, SchiffmanAndStein1970 and NogamiAndLi2003 raises on input with a required part missing, a part whose counterpart is '
  'missing, no load at all, no time or nothing to calculate, lists used in pairs with different lengths, or depth data over different ranges; it accepts complete input; a single load becomes a list of one and '
  'omitted cycles one None per load. Attributes assigned in the input text arrive unchanged, attributes the user does not set have the documented default, no other name arrives, and make_all carries out all steps in order.',
  ['inputs', 'configurations'],
  'for every class of missing, unpaired, differently long or differently ranged attribute, whatever the values',
  'Tests feed complete input; a requirement dropped from the lists of the input check lets wrong input through to results without an error.',
  ['geotecha/speccon/speccon1d_vr.py', 'geotecha/speccon/speccon1d_vrw.py', 'geotecha/speccon/speccon1d_vrc.py', 'geotecha/speccon/speccon1d_unsat.py', 'geotecha/inputoutput/inputoutput.py',
   'geotecha/consolidation/schiffmanandstein1970.py', 'geotecha/consolidation/nogamiandli2003.py'],
  [('check_input_attributes', 'geotecha/inputoutput/inputoutput.py'), ('_setup', 'geotecha/speccon/speccon1d_vr.py')],
  'abstract interpretation of the input check on one object per class of input; the raise condition is evaluated, defaults compared with the class documentation', 'other',
  'Lists of two loads. The documented default of prefix is excluded: every program documents and sets its own.')

P('C28', 'Saved tables and figures carry the results with their own times and depths',
  'After a run of speccon1d_vr, _vrw, _vrc, _unsat, SchiffmanAndStein1970 or NogamiAndLi2003 the tables handed to the file writer are exactly the requested results, each under its own name, '
  'with one row per selected time labelled with that time, one column per depth or depth interval labelled with its reduced level (RLzero given) or depth times H, and a heading that names program, title '
  'and quantity. Figures draw the same values against the same depths or times, curve labels, axis labels, user plot properties and figure labels belonging to the quantity drawn; the material figure shows '
  'every given property next to its own reference value, the load figure every given load with its own history, depth variation and cycles.',
  ['inputs', 'configurations'],
  'for all values, requested outputs, time selections, reduced levels, titles, load and material combinations (two depths, three times, up to two loads of each kind)',
  'Tests compare result arrays; saved tables and plots are not compared with them, and a label taken from a neighbouring request only differs when the two requests differ.',
  ['geotecha/speccon/speccon1d_vr.py', 'geotecha/speccon/speccon1d_vrw.py', 'geotecha/speccon/speccon1d_vrc.py', 'geotecha/speccon/speccon1d_unsat.py',
   'geotecha/consolidation/schiffmanandstein1970.py', 'geotecha/consolidation/nogamiandli2003.py'],
  [('make_output', 'geotecha/speccon/speccon1d_vr.py'), ('produce_plots', 'geotecha/speccon/speccon1d_vr.py')],
  'abstract interpretation of the whole run; arguments of the plot functions and the table dictionaries compared with the result attributes as value graphs', 'other',
  'The plot functions themselves and the digits printed are not analysed.')

P('C43', 'The beam models integrate the equation of motion of the beam',
  'DingEtAl2012 and SpecBeam: dimensionless parameters follow from the physical ones and given ones are kept; the trial functions are modes of the free beam (fourth derivative, end conditions, eigenvalues) for '
  'the end conditions offered; quadrature points are distinct, span the beam and their weights integrate powers exactly (nquad=None integrates with scipy); the rate of the state vector is the projection of '
  'the equation of motion on the trial functions, with mass, stiffness, damping and non-linear stiffness taken from their own profiles and all moving and stationary loads; the beam starts at rest; the '
  'deflection is the sum of the modes, scaled by L only when asked for; the matrices and load terms of the analytical method are those of the same equation. Unknown end conditions are refused.',
  ['inputs', 'configurations', 'histories'],
  'for all beam, foundation and load parameters, state vectors, times and positions, with any mix of moving and stationary loads',
  'The tests compare one uniform simply supported beam under one load; profiles, several loads, other ends and options show no effect there.',
  ['geotecha/beam_on_foundation/dingetal2012.py', 'geotecha/beam_on_foundation/specbeam.py'],
  [('Galerkin vector field', 'geotecha/beam_on_foundation/dingetal2012.py'), ('spectral matrices, numerical and analytical methods', 'geotecha/beam_on_foundation/specbeam.py')],
  'value graph of constructors and methods with ODE integration, root finding, eigen decomposition and spectral integrals uninterpreted; compared with the projected equation of motion', 'other',
  GVN_NOTE + ' ODE integration, eigenvalues and the spectral integrals (C20) are uninterpreted. Up to three terms. Known finding: the beta=0 mode of BC=FF is 0/0.')

P('C44', 'Moving loads: positions, times on the beam and spectral form agree',
  'MovingPointLoads: an axle is at start position plus its coordinate (mirrored for a group moving left) plus velocity times time since t0; its load acts exactly from entering the beam until it has travelled '
  'the length; the load histories, frequencies and phases used by the analytical method describe the same positions and durations, also for velocity, length, time or position given in the call; an axle is at '
  'a point at the time said to pass it; setting the velocity later gives the same times; the deflections under the loads are those at their positions, nan outside the limits. v=0 is refused.',
  ['inputs', 'histories'],
  'for all axle coordinates, loads, offsets, velocities of either sign, start times, start positions, lengths and times',
  'The only test with a moving load has a single axle that starts at time 0 at position 0.',
  ['geotecha/beam_on_foundation/specbeam.py'],
  [('load groups', 'geotecha/beam_on_foundation/specbeam.py')],
  'value graph of every method of the load groups (properties included) compared with uniform motion', 'other', GVN_NOTE + ' Three axles.')

P('C45', 'Closed-form beam curves satisfy the beam equation and matching conditions',
  'moving_load_on_beam_on_elastic_foundation: the exponents are the roots of the characteristic polynomial, deflection, slope and curvature are continuous under the load and the third derivative has the jump of '
  'the load, each side uses its own pair of roots; DAFinfinite and DAFrelative convert velocity, damping and static deflection for another stiffness; static point load shapes satisfy the static equation with unit '
  'value and zero slope under the load and superpose; tanhtran has its centre at the position asked for and tanhtrani, tanhtranib invert it; reverse_curve_transition consists of two arcs through the end points '
  'that meet smoothly, wherever the start is, and refuses a transition without length.',
  ['inputs'],
  'for all velocity, damping and stiffness ratios, positions, lengths and points',
  'None of these functions has a test.',
  ['geotecha/beam_on_foundation/specbeam.py'],
  [('closed-form curves', 'geotecha/beam_on_foundation/specbeam.py')],
  'value graph compared with symbolic derivatives and inverse relations; polynomial roots and linear solves uninterpreted', 'other', GVN_NOTE + ' The first two roots returned are taken to be the decaying ones, as in the code.')

P('C51', 'Series solutions converge to the exact solution as terms are added',
  'The pore pressures and settlements of the spectral and eigenfunction programs tend to the exact solution of the governing equation as the number of series terms grows, monotonically enough that '
  'the documented number of terms gives a usable answer.',
  ['inputs'], 'for all layer, drain and load data and all numbers of terms', 'Tests compare a few profiles with published curves at one number of terms.',
  ['geotecha/speccon/speccon1d_vr.py', 'geotecha/consolidation/schiffmanandstein1970.py', 'geotecha/consolidation/xieandleo2004.py'], [('series', 'geotecha/speccon')],
  na='A statement about the limit of a truncated Fourier-sine expansion of a runtime solution; no static argument bounds the truncation error for arbitrary data. The truncated system itself is decided by C36-C39.')
P('C52', 'Root finders return every root up to the requested number',
  'find_n_roots and the characteristic-equation solvers of the layered programs return the first n positive roots, none skipped, in increasing order, whatever the layer properties.',
  ['inputs'], 'for all functions, starting points and increments', 'Tests use functions with known well separated roots.',
  ['geotecha/mathematics/root_finding.py', 'geotecha/consolidation/schiffmanandstein1970.py', 'geotecha/consolidation/nogamiandli2003.py'], [('find_n_roots', 'geotecha/mathematics/root_finding.py')],
  na='Whether a step-wise search skips a pair of close roots depends on the runtime distance between roots relative to the step; it is false for some functions and cannot be bounded from the source.')
P('C53', 'Numerical integral transforms meet the requested accuracy',
  'The inverse Laplace, Hankel and Fourier transforms and the oscillatory integrals return values within their error estimates of the true transform.',
  ['inputs'], 'for all transformable functions and evaluation points', 'Tests check a table of known pairs at fixed points.',
  ['geotecha/mathematics/laplace.py', 'geotecha/mathematics/hankel.py', 'geotecha/mathematics/fourier.py'], [('transforms', 'geotecha/mathematics')],
  na='Quadrature error depends on the smoothness of the user function. The sums, nodes, weights and scalings that are evaluated are decided by C23 and C27; their accuracy for a given function is not a static fact.')
P('C54', 'Time-stepping programs conserve mass',
  'The explicit void-ratio and radial flow programs (ConsolidationRate functions using odeint and fixed point iteration) conserve the water volume between outflow and settlement to solver tolerance.',
  ['inputs', 'histories'], 'for all soil models and load histories', 'Tests compare a few points of a few histories.',
  ['geotecha/constitutive_models/epus.py', 'geotecha/consolidation/shanetal2012.py'], [('odeint', 'geotecha/constitutive_models')],
  na='A bound on the accumulated error of an adaptive ODE solver run on user data; not decidable from the source. The right-hand sides are decided by C18 where they are closed formulas.')
