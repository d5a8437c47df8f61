"""Registry of the properties: the one source of properties.jsonl and MANIFEST.json
(python3 tools/gen.py writes both)."""
P = {}


def prop(id, title, statement, over, why, files, mech, note='', technique=None):
    P[id] = dict(id=id, title=title, statement=statement, over=over, why=why, files=files,
                 mech=mech, note=note, technique=technique)


def na(id, title, statement, over, why, files, mech, reason):
    prop(id, title, statement, over, why, files, mech)
    P[id]['na'] = reason


prop('P01', 'Level crossings found by index are exactly the crossings of the signal',
     'For every finite sequence of samples and every level, the level-crossing search returns exactly the indices after which the sequence '
     'goes from not above to above the level (up-crossing) or from not below to below (down-crossing), each excursion counted once and samples equal to '
     'the level never producing a crossing without a change of side; the options for up-crossings, down-crossings and wave definitions select '
     'the sub-sequence they name. The interpolated crossing positions lie in the bracketing sample interval and are where the linear interpolant meets the level.',
     'every real-valued sequence up to the bound length, every level, every kind of crossing/wave definition',
     'Crossing logic depends on runs of equal samples and on ties with the level; the tests use a handful of sine-like series without ties.',
     ['src/wafo/misc.py', 'src/wafo/_misc_numba.py'],
     [('findcross', 'src/wafo/misc.py: findcross, _findcross, ecross'), ('compiled crossing loop', 'src/wafo/_misc_numba.py: findcross')])

prop('P03', 'Turning points of a signal are complete, alternating and exact',
     'For every finite sequence of samples, extrema extraction returns exactly the positions where the direction of the sequence changes (a flat top counts once), '
     'so that the sequence is monotone between neighbouring extrema; turning-point extraction adds the end points its wave definition prescribes, starts with the right kind of '
     'extreme and has odd length for the max-to-max and min-to-min definitions, and the peak search returns distinct maxima sorted from the highest, in a matrix those higher than the neighbouring rows, with 5 per cent of the range as default height.',
     'every real-valued sequence up to the bound length, every wave definition',
     'Correctness hinges on plateaus, ties and sequences with very few extremes; the tests check one or two smooth series.',
     ['src/wafo/misc.py'],
     [('findextrema', 'src/wafo/misc.py: findextrema'), ('findtp', 'src/wafo/misc.py: findtp'), ('findpeaks', 'src/wafo/misc.py: findpeaks')])

prop('P04', 'Rainflow filtering removes exactly the cycles below the threshold',
     'For every sequence of turning points and every threshold, the rainflow filter keeps an alternating sub-sequence of the input, keeps every rainflow cycle '
     'whose range exceeds the threshold and leaves none whose range does not; the filtered signal always contains the global maximum and minimum when their distance exceeds the threshold. '
     'Turning points extracted with a rainflow threshold equal those of the filtered signal.',
     'every real-valued turning-point sequence up to the bound length and every threshold',
     'Which cycles pair up depends on the complete ordering of the sequence; tests pin one filtered sine series.',
     ['src/wafo/misc.py', 'src/wafo/_misc_numba.py'],
     [('findrfc', 'src/wafo/misc.py: findrfc, _findrfc'), ('rfcfilter', 'src/wafo/misc.py: rfcfilter, _misc_numba.findrfc'), ('findtp with threshold', 'src/wafo/misc.py: findtp')])

prop('P22', 'Polynomial calculus obeys the algebra of polynomials',
     'For every coefficient vector, differentiation and integration of polynomials in coefficient form agree with the derivative and antiderivative of the polynomial function (integration followed by '
     'differentiation is the identity), and relocation, rescaling and shifting return a polynomial whose values are those of the original at the correspondingly '
     'moved argument; trimming removes only zero leading (or trailing) coefficients.',
     'every real coefficient vector up to the bound degree, every shift, scale and evaluation point, scalar and piecewise (matrix) coefficient layouts',
     'An identity over all coefficients; tests evaluate single integer polynomials.',
     ['src/wafo/polynomial.py'],
     [('polyder/polyint', 'src/wafo/polynomial.py: polyder, polyint'), ('polyreloc/polyrescl/polyshift', 'src/wafo/polynomial.py'), ('polytrim', 'src/wafo/polynomial.py: polytrim')])

prop('P23', 'Chebyshev series are evaluated, converted, fitted and differentiated exactly',
     'For every coefficient vector and interval the Chebyshev routines agree with the Chebyshev series they denote: evaluation (first and second kind, one and several dimensions, with fill '
     'outside the interval), conversion to and from power form (exact inverses), fitting at the Chebyshev nodes (by cosine transform or summation) recovers the coefficients, '
     'derivatives and integrals are those of the series, and Cheb1d objects add, subtract and calculate like the functions they represent.',
     'every real coefficient vector up to the bound degree, every interval and every evaluation point',
     'The identities are over all coefficients and intervals; the tests fit a single function (exp) to a tolerance.',
     ['src/wafo/polynomial.py'],
     [('chebval/chebvalnd', 'src/wafo/polynomial.py'), ('chebfit/chebfit_dct/chebfitnd', 'src/wafo/polynomial.py'), ('cheb2poly/poly2cheb', 'src/wafo/polynomial.py'), ('chebder/chebint/Cheb1d', 'src/wafo/polynomial.py')])

prop('P24', 'The orthogonal polynomial fit is the least squares fit',
     'For all data the orthogonal-polynomial fit of degree n is the least squares polynomial (its residual is orthogonal to every power up to n), polynomials of the degree of '
     'the fit are reproduced, and conversion of the fit to power form gives the same polynomial.',
     'every set of data values at the bound points (and every set of distinct points for the small cases), every evaluation point',
     'Optimality is a statement over all data; the tests check one sample.',
     ['src/wafo/polynomial.py'],
     [('orthofit', 'src/wafo/polynomial.py: orthofit'), ('orthoval/ortho2poly', 'src/wafo/polynomial.py: orthoval, ortho2poly')])

prop('P02', 'The compiled C routines and the Python implementations agree and are memory safe',
     'For every input within the bounds the C library routines for level crossings, rainflow points, ASTM rainflow cycles and second-order (sum and difference frequency) wave effects '
     'return exactly what the pure Python implementations return, so that results do not depend on whether the extension was built; the second-order effects equal the quadratic transfer-function '
     'sums they document (deep and finite water, one or several cases, split or combined output); no C routine reads or writes outside its arrays or uses uninitialised memory.',
     'every real-valued sequence, threshold and level up to the bound length; every complex amplitude vector for the stated frequency grids',
     'Agreement must hold for every ordering of the samples; the tests compare one sine series and one constant amplitude vector.',
     ['source/c_library/c_functions.c', 'src/wafo/_misc_numba.py', 'src/wafo/misc.py'],
     [('C routines', 'source/c_library/c_functions.c: findcross, findrfc, findrfc3_astm, findrfc5_astm, disufq, disufq2'), ('Python routines', 'src/wafo/_misc_numba.py')],
     technique='symbolic execution of the C source (clang AST) and of the Python source on z3 terms; SMT verdict over all values within bounds; replay on a gcc sanitizer build and the unpatched Python code')

prop('P05', 'ASTM rainflow counting follows the rules and conserves the signal range',
     'For every sequence of turning points, ASTM rainflow counting returns exactly the cycles prescribed by the ASTM E1049 three-point rules, in order, with amplitude half the range, mean the midpoint, '
     'count one half or one, and (with time) start time and period; the counted ranges add up to the total variation of the sequence and the input is not modified.',
     'every strictly alternating real-valued sequence up to the bound length (and every increasing time vector)',
     'The result depends on the full ordering of the ranges; the tests pin one filtered series.',
     ['src/wafo/_misc_numba.py', 'src/wafo/misc.py', 'src/wafo/objects.py'],
     [('findrfc_astm', 'src/wafo/_misc_numba.py: findrfc_astm, _findrfc3_astm, _findrfc5_astm'), ('TurningPoints.cycle_astm', 'src/wafo/objects.py')])

prop('P06', 'Troughs and crests are the extremes between neighbouring level crossings',
     'For every sequence and level, the trough/crest search returns, for every two neighbouring crossings of the (selected) wave definition, exactly one index between them, at which the sequence attains its lowest value '
     '(after a down-crossing) or highest value (after an up-crossing) between the two crossings, the first one when tied; the crossings returned are those of the level-crossing search and '
     'nothing is returned when there are fewer than three of them. TimeSeries.trough_crest reports these values and their times.',
     'every real-valued sequence up to the bound length, every level (and the default mean level), every wave definition',
     'Off-by-one windows and ties only show for particular arrangements of samples; tests use one smooth series.',
     ['src/wafo/misc.py', 'src/wafo/objects.py'],
     [('findtc', 'src/wafo/misc.py: findtc'), ('TimeSeries.trough_crest', 'src/wafo/objects.py')])

prop('P07', 'Wave heights, periods and steepness are those of the individual waves',
     'For every time series the wave parameters equal their definitions on the individual zero-crossing waves: crest and trough amplitudes are the extremes between crossings, wave heights are crest plus preceding/following trough, '
     'up- and down-crossing periods are distances between interpolated crossing times, crest front and back periods are the distances from the crest to the neighbouring crossings, all positive; '
     'steepness and crest speed combine them by the documented formulas, and wave_periods returns the crossing-to-crossing periods for the requested definition.',
     'every real-valued series with the stated patterns of signs, every sampling interval, level and gravity',
     'Pairing of crests, troughs and crossings depends on how the record starts and ends; tests pin one record.',
     ['src/wafo/objects.py', 'src/wafo/misc.py'],
     [('TimeSeries.wave_parameters', 'src/wafo/objects.py'), ('TimeSeries.wave_height_steepness', 'src/wafo/objects.py'), ('TimeSeries.wave_periods', 'src/wafo/objects.py')])

prop('P08', 'Cycle pairs and fatigue damage account for every cycle of the turning points',
     'For every sequence of turning points, cycle_pairs returns every min-to-max (or max-to-min) pair once, as (minimum, maximum), after removing exactly the rainflow cycles below the threshold when one is given; '
     'amplitudes are half the ranges and damage(beta, K) is K times the sum of amplitude**beta for every exponent, irrespective of the order in which a cycle is stored; the cycles and turning points are not modified.',
     'every alternating sequence up to the bound length, every threshold, every set of cycles up to the bound, exponents 1 to 5',
     'Start/end handling and filtering interact; tests pin sums for one record.',
     ['src/wafo/objects.py'],
     [('TurningPoints.cycle_pairs / rainflow_filter', 'src/wafo/objects.py'), ('CyclePairs.damage, amplitudes', 'src/wafo/objects.py')])

prop('P09', 'Level-crossing counts from cycles count the cycles that span each level',
     'For every set of cycles, level_crossings returns each distinct minimum and maximum once as a level, in increasing order, and for every level the number of cycles that cross it under the chosen definition '
     '(up-crossings only, with maxima, with minima and maxima, or with minima), divided by the observation time when intensities are requested, irrespective of how the cycles are stored.',
     'every set of real-valued cycles up to the bound, ties included, every definition',
     'Counts at tied levels need exact tie handling; tests use data without ties.',
     ['src/wafo/objects.py'],
     [('CyclePairs.level_crossings', 'src/wafo/objects.py')])

prop('P10', 'A cycle matrix counts every cycle once in the cell of its discrete levels',
     'For every set of cycles and every regular discretisation, cycle_matrix has one entry per pair of levels, its entries add up to the number of cycles, and each cycle is counted in the cell given by '
     'projecting its minimum and maximum to the discrete levels in the requested direction (outwards, nearest, inwards), values outside the grid going to the outermost admissible level.',
     'every set of real-valued cycles up to the bound and every regular grid of the stated sizes, cycles stored either way round',
     'Which cell is hit depends on the position relative to the grid, including outside it; tests pin one record.',
     ['src/wafo/objects.py'],
     [('CyclePairs.cycle_matrix', 'src/wafo/objects.py')])

prop('P11', 'Outlier search partitions the record and flags exactly the spurious points',
     'For every record and thresholds, findoutliers returns sorted, distinct spurious indices and the complementary good indices (together every sample once); a point is flagged exactly when it is reached by '
     'a step larger than dcrit, a second difference larger than ddcrit, or belongs to or borders a run of steps no larger than zcrit; missing samples influence only their neighbourhood, the defaults '
     'are 1.5 standard deviations and the record is not modified.',
     'every real-valued record up to the bound length, every nonnegative threshold, one missing sample at any of the stated positions',
     'The flags combine several shifted index sets; tests pin one record.',
     ['src/wafo/misc.py'],
     [('findoutliers', 'src/wafo/misc.py: findoutliers')])

prop('P12', 'Moving average and detrending are a bounded, local, linear split of the series',
     'For every series, detrendma(x, L) + moving_average(x, L) is x; both are linear in the data; where the window does not fit the average is the mean of all samples; the first L+1 values are the mean of the first window and the last '
     'full window is continued to the end; a straight line passes unchanged where the window fits, along the requested axis; a sample does not influence averages whose window ends before it.',
     'every real-valued series for the stated lengths and windows, one- and two-dimensional, either axis',
     'Linearity and locality are statements about all series; tests pin one example.',
     ['src/wafo/misc.py'],
     [('moving_average / detrendma', 'src/wafo/misc.py: moving_average, detrendma')])

prop('P13', 'Conditional helpers evaluate each function only where its condition holds',
     'For every argument array, lazywhere, lazyselect and piecewise return element by element the value of the function whose condition holds there and the fill/default/otherwise value elsewhere, with scalar arguments broadcast, and '
     'never evaluate a function outside its condition; argsreduce returns the selected elements of all arguments expanded to a common shape.',
     'every real-valued array of the stated shapes',
     'Mask-indexing mistakes only show for mixed conditions; tests use fixed arrays.',
     ['src/wafo/misc.py'],
     [('lazywhere, lazyselect, piecewise, argsreduce', 'src/wafo/misc.py')])

prop('P14', 'Rotations preserve length and compose; coordinate conversions round-trip',
     'For every angle triple rotation_matrix is orthogonal with determinant one and equals heading about z after pitch about y after roll about x; rotate applies it, rotate_2d is the plane rotation, both preserve length; '
     'polar2cart inverts cart2polar (with or without a third coordinate) with nonnegative radius; spaceline returns equally spaced points including both ends.',
     'every real point and every angle within two turns',
     'Identities over all angles; tests evaluate single angles.',
     ['src/wafo/misc.py'],
     [('rotation_matrix, rotate, rotate_2d', 'src/wafo/misc.py'), ('cart2polar, polar2cart, spaceline', 'src/wafo/misc.py')])

prop('P16', 'Transformed processes obey the chain rule on the tabulated transform',
     'For every tabulated transform, trangood returns a uniformly spaced table covering the same range with values on the piecewise linear transform (whatever the order of the input points) and continues it linearly '
     'above the range when asked; tranproc evaluates the transform by linear interpolation and transforms first to fourth time derivatives by the chain rule with the tabulated divided differences.',
     'every transform table of the stated sizes with any values, every process value inside the table, every derivative value',
     'Chain-rule coefficients are identities over all derivative values; tests use one smooth transform.',
     ['src/wafo/misc.py'],
     [('trangood', 'src/wafo/misc.py: trangood'), ('tranproc', 'src/wafo/misc.py: tranproc')])

prop('P31', 'Wave numbers and frequencies satisfy the dispersion relation',
     'For every wave vector, depth, gravity and current, k2w returns the frequency of the linear dispersion relation (including the current, never negative) and the direction of the wave vector; '
     'w2k returns the wave vector with the sign of the frequency and the given direction, exactly w*|w|/g in infinitely deep water, and in finite depth the Newton iterate of each element continued until that '
     'element meets its own tolerance, so that its limit solves w**2 = g*k*tanh(k*h); elements of an array do not influence one another and k2w inverts w2k.',
     'every wave vector, frequency, direction, gravity, depth and current in the stated ranges; one Newton step for symbolic frequency and depth, any tolerance for fixed frequencies and depths',
     'An identity over all frequencies and depths; the tests evaluate a few fixed values.',
     ['src/wafo/wave_theory/dispersion_relation.py'],
     [('k2w', 'src/wafo/wave_theory/dispersion_relation.py: k2w'), ('w2k', 'src/wafo/wave_theory/dispersion_relation.py: w2k')])

prop('P46', 'Wave transfer functions are those of linear (Airy) wave theory',
     'For every frequency, wave number, direction, sensor position, depth, gravity and density, TransferFunction.tran returns for each of the 18 sensor types the linear (Airy) wave theory transfer function from surface elevation '
     'to the sensed quantity, as a nonnegative frequency part times a unit complex directional part including the phase of the position, for every vertical axis convention (igam), wave-direction convention (bet) and sign of frequency; '
     'the wave number defaults to the dispersion relation of its own depth and gravity; the arguments are not modified; sensor names and numbers are inverse; hyperbolic_ratio is the ratio of the hyperbolic functions.',
     'every value in the stated ranges, finite depth',
     'Signs, quadrants and depth attenuation are identities over all arguments; the tests evaluate a few sensors at fixed values.',
     ['src/wafo/wave_theory/core.py'],
     [('TransferFunction', 'src/wafo/wave_theory/core.py: TransferFunction.tran'), ('hyperbolic_ratio', 'src/wafo/wave_theory/core.py'), ('sensor_type, sensor_typeid', 'src/wafo/wave_theory/core.py')])

prop('P17', 'Parametric transforms are the published ones and invert exactly',
     'For every mean, standard deviation, Gaussian-side scaling and value, TrLinear, TrOchi and TrHermite map data to the Gaussian side by their documented formulas (Ochi exponential branches, Winterstein '
     'Hermite polynomials, hardening model), gauss2dat inverts dat2gauss, derivatives transform linearly for TrLinear, TrOchi is increasing, out-of-range skewness is refused, changed parameters take effect, trdata tabulates the transform on the grid asked for and '
     'dist2gauss is the mean square distance to the linear transform.',
     'every value, mean, standard deviation and scaling; fixed skewness and kurtosis where the coefficients involve a root search or non-integer powers',
     'Inverse pairs and branch switches are statements over all values; tests use one simulated record.',
     ['src/wafo/transform/models.py', 'src/wafo/transform/core.py'],
     [('TrLinear, TrOchi, TrHermite', 'src/wafo/transform/models.py'), ('TrCommon.dist2gauss, trdata', 'src/wafo/transform/core.py, models.py')])

prop('P18', 'Grid counts conserve weight and linearly bin every datum',
     'For every data set inside the grid, gridcount gives each grid node the (multi-)linear binning weight of each datum times its weight y, so that total weight and first moment are conserved, including data at the last node; '
     'data outside the grid or of another dimension are refused; the arguments are not modified; accum and accumsum accumulate exactly the values mapped to each bin.',
     'every data location and weight for the stated numbers of data, nodes and one to three dimensions',
     'Index arithmetic at cell borders over all locations; tests bin one sample.',
     ['src/wafo/kdetools/gridding.py'],
     [('gridcount', 'src/wafo/kdetools/gridding.py: gridcount, _gridcount_1d, _gridcount_nd'), ('accum, accumsum', 'src/wafo/kdetools/gridding.py')])

prop('P19', 'Kernels are symmetric densities with the stated constants',
     'For every point, each of the eleven kernels has its documented formula, is symmetric, nonnegative and zero outside its support, and norm_factor is its integral in every dimension, so the normalised kernel integrates to one; stored second '
     'moment and roughness are those of the kernel; the normal-scale bandwidth is the documented constant times the standard deviation or the interquartile range over 1.349, whichever is smaller, scales with the data and ignores shifts, its multivariate form squares to the scaled covariance; derivatives and functionals of the normal kernel are exact; qlevels returns the density level enclosing a percentage and refuses negative densities.',
     'every point of the line and plane (space for norms), every radius, every data set of the stated size',
     'Normalisation and symmetry quantify over all points; tests evaluate fixed points.',
     ['src/wafo/kdetools/kernels.py'],
     [('_Kernel classes', 'src/wafo/kdetools/kernels.py'), ('Kernel.hns, hos', 'src/wafo/kdetools/kernels.py'), ('qlevels, iqrange, sphere_volume', 'src/wafo/kdetools/kernels.py')])

prop('P20', 'Kernel density estimates equal their definition on every evaluation path',
     'For every data set, bandwidth (scalar, vector or matrix), weights and moment order, KDE.eval_points equals the mean of scaled kernels whichever loop is chosen, eval_grid is the same on the mesh, eval_grid_fast is the estimate of the linearly '
     'binned data, local bandwidth factors follow the pilot estimate, and TKDE multiplies the density of the transformed data with the derivative of the transform (log and powers, real or whole numbers, one or many points).',
     'every data value, point, bandwidth and weight for the stated numbers of data and points, one and two dimensions',
     'Agreement of code paths and normalisation hold for all data; tests compare single samples.',
     ['src/wafo/kdetools/kdetools.py', 'src/wafo/kdetools/kernels.py', 'src/wafo/kdetools/gridding.py'],
     [('KDE', 'src/wafo/kdetools/kdetools.py: KDE'), ('TKDE', 'src/wafo/kdetools/kdetools.py: TKDE')])

prop('P21', 'Kernel regression and its confidence intervals',
     'For every responses, KRegression of order 0 is the kernel weighted mean of the responses (negative ones included, with or without data transform, direct or binned) and of order 1 the local linear fit, so constants and straight lines are reproduced; '
     'BKRegression.prb_empirical is the binned fraction of successes with its counts, and the Wilson interval solves the score equation, covers the estimate, stays in [0, 1] and widens with confidence.',
     'every response vector for fixed design points, every success fraction and sample size',
     'Statements over all responses and fractions; tests use one sample.',
     ['src/wafo/kdetools/kdetools.py'],
     [('KRegression', 'src/wafo/kdetools/kdetools.py: KRegression'), ('BKRegression', 'src/wafo/kdetools/kdetools.py: BKRegression.prb_ci, prb_empirical')])

prop('P30', 'Bit access reads and writes exactly the addressed bit',
     'For every integer and bit position getbit returns that bit, setbit changes it to the requested value and leaves every other bit, getbits lists the lowest bits and setbits composes them back; arrays are handled element by element without modifying the argument.',
     'every 64-bit word and bit positions 0 to 62',
     'All words and positions; tests check a few.',
     ['src/wafo/bitwise.py'],
     [('getbit, setbit, getbits, setbits', 'src/wafo/bitwise.py')])

prop('P25', 'Piecewise polynomials and shape-preserving interpolants are exact',
     'For every breaks, coefficients and evaluation point, PPform evaluates the polynomial of the interval that contains the point (the limiting polynomial or fill outside), its derivative and integral are those of the piecewise function with the same limits and '
     'fill; slopes by every method reproduce straight lines, stay in the bound that makes the cubic Hermite interpolant monotone where the method claims it, commute with scaling, '
     'reflection and shift of the data, and Stineman interpolation follows its formula, passes through the data and stays between neighbouring data.',
     'every data values (and evaluation points) for the stated numbers of points and grids',
     'Monotonicity and limits are statements over all data; the tests interpolate one or two fixed series.',
     ['src/wafo/interpolate.py'],
     [('PPform', 'src/wafo/interpolate.py: PPform'), ('slopes', 'src/wafo/interpolate.py: slopes'), ('StinemanInterp, stineman_interp', 'src/wafo/interpolate.py')])

prop('P26', 'Smoothing splines minimise the penalised criterion',
     'For every data and variances SmoothSpline satisfies the normal equations of the penalised least squares criterion for its smoothing parameter: interpolating natural cubic spline at p=1, weighted least squares line at p=0, the minimiser between, '
     'independent of the order of the data; linear extrapolation is continuous with continuous slope.',
     'every data values for stated abscissae, smoothing parameters and variances',
     'Optimality over all data; tests compare one fixed curve.',
     ['src/wafo/interpolate.py'],
     [('SmoothSpline', 'src/wafo/interpolate.py: SmoothSpline'), ('PPform.linear_extrapolate', 'src/wafo/interpolate.py')])

prop('P27', 'Quadrature rules have their nominal degree of exactness',
     'For every polynomial up to the degree a rule promises and every interval, romberg, clencurt (functions and tables), gaussq, quadgr, boole and the Gauss rules (Legendre, Hermite, Laguerre, Chebyshev and Jacobi weight functions) return the exact integral, map '
     'their weight functions to the interval, and give the negated integral when the limits are exchanged.',
     'every coefficient vector up to the stated degrees, every interval in the stated ranges',
     'Exactness is linear over all integrands; tests integrate one function each.',
     ['src/wafo/integrate.py'],
     [('clencurt, romberg, quadgr, gaussq', 'src/wafo/integrate.py'), ('h_roots, j_roots, la_roots, p_roots, qrule', 'src/wafo/integrate.py')])

prop('P41', 'Fitted distributions: fixed parameters, criteria, covariance and profiles',
     'For every distribution with quadratic criterion and every data: fitting keeps fixed parameters (floc, fscale, fN, fname, fix_name) at their values and gives the others, in order, what the optimiser (callable or named) found for the criterion with the fixed values in place; the product spacing criterion is minus the sum of log spacings of the cdf with ties replaced by the density and values outside the support penalised; LLmax, LPSmax and the p-value (Moran) belong to the parameters returned; '
     'par_cov is the inverse curvature over the free parameters and zero for fixed ones, par_lower/par_upper its normal limits; Profile, profile_quantile and profile_probability give the criterion maximised over the free parameters on the grid from the optimum down to the level of alpha, get_bounds its outermost linear crossings, the automatic range reaches the level on both sides, and ci_sf, ci_logsf, ci_quantile the bounds of these profiles for the alpha and index given.',
     'every quadratic criterion in up to 4 parameters (real coefficients), every sample of up to 3 values for the spacings',
     'Index mix-ups between fixed and free parameters and levels not reached show only for particular combinations; tests fit a few samples.',
     ['src/wafo/stats/estimation.py', 'src/wafo/stats/_distn_infrastructure.py'],
     [('FitDistribution, Profile, ProfileQuantile, ProfileProbability', 'src/wafo/stats/estimation.py'), ('_fit, _reduce_func2, _penalized_nlogps', 'src/wafo/stats/_distn_infrastructure.py')])

prop('P45', 'Distributions and start values defined by wafo.stats are consistent',
     'truncrayleigh has density (r + c) exp(-r(r + 2c)/2) with matching cdf, sf, logarithms, quantiles, moments and entropy for every shape; pbinom answers pmf, cdf and sf for integer, real and array arguments from its probabilities, has the moments of a sum of independent trials and refuses probabilities outside [0, 1]; '
     'start values of genpareto, genextreme, weibull_min and lognorm are the documented moment estimates and leave the data unmodified.',
     'every shape, value and probability; every sample of up to 3 values',
     'Moments that ignore the shape or sorted caller data are invisible to fits of a few samples.',
     ['src/wafo/stats/distributions.py'],
     [('truncrayleigh_gen, pbinom, _*_fitstart', 'src/wafo/stats/distributions.py')])

prop('P42', 'The Hampel filter replaces exactly the outliers',
     'For every series, HampelFilter replaces a sample by the local median exactly when it lies more than t local scales from it (1.4826 times the local median absolute deviation, windows clipped at the ends), leaves every other sample unchanged, is shift '
     'and scale equivariant, does not modify its argument and accepts whole-number data.',
     'every series of the stated lengths, windows and thresholds (fixed window width)',
     'Medians switch with the complete order of the samples; tests pin one series.',
     ['src/wafo/sg_filter/_core.py'],
     [('HampelFilter', 'src/wafo/sg_filter/_core.py: HampelFilter')])

prop('P43', 'Kalman filter steps satisfy the Kalman equations',
     'For every state, covariance, gain input and measurement, each call of Kalman predicts the state with the system matrix and control input, and conditions it on the measurement: the posterior mean solves the weighted normal equations and the posterior covariance is the inverse information; the first measurement initialises the state and its covariance, and averaging a constant gives the mean.',
     'every value of the state, model and measurement of one and two dimensions, up to the stated number of steps',
     'Algebraic identities over all histories; tests follow one noisy constant.',
     ['src/wafo/sg_filter/_core.py'],
     [('Kalman', 'src/wafo/sg_filter/_core.py: Kalman')])

prop('P44', 'Linear smoothers reproduce what they must and fit by least squares',
     'For every data, Savitzky-Golay smoothing and differentiation equals the local least squares polynomial fit (so polynomials of the degree and their derivatives are reproduced, one and two dimensions, piecewise as well), the Hodrick-Prescott filter solves its '
     'normal equations, smoothn with a given parameter solves the penalised least squares problem by cosine transform with weights and missing values, and the functions do not modify their arguments.',
     'every data values for the stated lengths, window sizes, degrees and parameters',
     'Reproduction is linear over all data; tests pin one noisy signal.',
     ['src/wafo/sg_filter/_core.py'],
     [('SavitzkyGolay, savitzky_golay, sgolay2d', 'src/wafo/sg_filter/_core.py'), ('HodrickPrescott', 'src/wafo/sg_filter/_core.py'), ('smoothn', 'src/wafo/sg_filter/_core.py')])

prop('P28', 'Padua interpolation is exact for polynomials of its degree',
     'For every degree and rectangle padua_points returns the Padua points, padua_fit with padua_val interpolates whatever values are given at them with a polynomial of that total degree, so every polynomial up to the degree is reproduced at single points, '
     'arrays of points and on meshes (rows following the second variable), padua_cubature is its exact integral over the rectangle, extra arguments reach the function, and the error estimate is twice the sum of the leading coefficients.',
     'every vector of values, polynomial and coefficient matrix for the stated degrees and domains',
     'Interpolation and exactness are linear statements over all functions; tests fit a few.',
     ['src/wafo/padua.py'],
     [('padua_points', 'src/wafo/padua.py: padua_points, _find_m'), ('padua_fit, padua_val', 'src/wafo/padua.py'), ('padua_cubature, error_estimate', 'src/wafo/padua.py')])

prop('P29', 'Multi-dimensional cosine and sine transforms are separable and invertible',
     'For every array, dct, idct, dst, idst are the documented sums for every type, normalisation, length and axis, and dctn, idctn, dstn, idstn apply them along exactly the requested axes (negative ones included), padding or truncating to the requested shape, '
     'leaving the data unmodified; inverse after forward transform restores the data; mismatched axes and shape are refused; shiftdim rotates, adds or removes dimensions.',
     'every array of the stated shapes, axes and target shapes',
     'Axis bookkeeping is a statement over all arrays and axes; tests transform a few square arrays.',
     ['src/wafo/dctpack.py'],
     [('dct, dst and inverses', 'src/wafo/dctpack.py'), ('dctn, dstn and inverses', 'src/wafo/dctpack.py: _raw_dctn'), ('shiftdim', 'src/wafo/dctpack.py')])

prop('P32', 'Spectral moments and sea state characteristics follow their definitions',
     'For every one-dimensional spectrum, moment, characteristic and bandwidth return the integrals and ratios they are defined by, independent of whether the spectrum is given in rad/s or Hz; switching the frequency type keeps moments and sampling and is reversible; normalize gives unit variance and '
     'unit second moment (with the original scale recoverable), copies are independent of the original and the density is not changed by asking for characteristics.',
     'every density on the stated frequency grids',
     'Definitions must hold for all densities; tests evaluate one Jonswap spectrum.',
     ['src/wafo/spectrum/core.py'],
     [('moment, characteristic, bandwidth', 'src/wafo/spectrum/core.py: SpecData1D'), ('normalize, freqtype', 'src/wafo/spectrum/core.py: SpecData1D')])

prop('P33', 'Spectrum and covariance function are a Fourier transform pair',
     'For every spectrum tocovdata returns the cosine transform of the density and its derivatives at the lags of the requested rate and number; for every covariance function tospecdata returns its cosine series (nugget added once, negative and negligible values set to zero); one after the other restores the '
     'spectrum; tocov_matrix gives the same columns for any time step; resampling gives an equidistant grid from zero to the new Nyquist frequency, at least as dense, with the given values at shared frequencies, zero outside and never negative; changing the kind of frequency keeps the variance; depth, transformation and type are kept, the inputs are not modified, and spectra that do not start at zero or are not equidistant are refused.',
     'every density and covariance values for the stated numbers of frequencies, lags, rates and frequency types',
     'Transform identities hold for all densities; tests compare a few ordinates of one spectrum.',
     ['src/wafo/spectrum/core.py', 'src/wafo/covariance/core.py'],
     [('tocovdata', 'src/wafo/spectrum/core.py: SpecData1D.tocovdata'), ('tospecdata', 'src/wafo/covariance/core.py: CovData1D.tospecdata')])

prop('P34', 'Covariance estimates and conditional simulation follow their definitions',
     'For every series, CovarianceEstimator returns the mean lagged products of the centred series (biased or unbiased, missing values left out, lag window applied, normalised on request) and the large-lag standard deviations, up to the largest lag whose correlation is significant when none is given, and TimeSeries.tocovdata and tospecdata the same estimate and its windowed transform; for every covariance and observations, simcond gives the conditional mean and standard deviation '
     'of the missing samples and samples from the distribution they describe, by the exact method and by the sliding-window method, leaving series and covariance unmodified.',
     'every series and covariance values of the stated lengths and sets of missing samples',
     'Estimates are quadratic forms and conditional moments rational functions over all data; tests pin one measured series.',
     ['src/wafo/covariance/estimation.py', 'src/wafo/covariance/core.py'],
     [('CovarianceEstimator', 'src/wafo/covariance/estimation.py'), ('simcond', 'src/wafo/covariance/core.py: CovData1D.simcond')])

prop('P47', 'Simulated gaussian processes have the covariance asked for',
     'For every covariance function, every pair of samples of a series simulated by CovData1D.sim has exactly the requested covariance when the random numbers drawn are independent standard normal, different series are uncorrelated, and derivatives have the covariances of the derivative process; SpecData1D.sim has the covariance of its '
     'spectrum sampled at the frequencies of the series; a transformation is applied to the gaussian result; covariances whose maximum is not at lag zero are refused and the object is not modified.',
     'every covariance or spectrum values for the stated numbers of lags, frequencies and samples, all pairs of samples',
     'The covariance of the output is a statement over all random draws and all covariance functions; tests check sample moments loosely.',
     ['src/wafo/covariance/core.py', 'src/wafo/spectrum/core.py'],
     [('CovData1D.sim', 'src/wafo/covariance/core.py'), ('SpecData1D.sim', 'src/wafo/spectrum/core.py')])

prop('P48', 'Second order waves are the sum over all pairs of components',
     'For every set of complex amplitudes, disufq returns the sum and difference frequency amplitudes of second order (Stokes) theory for every pair of components inside its frequency limits, deep and finite water and several series at once; quadratic transfer functions are half these kernels; stats_nl gives the mean, variance, '
     'skewness and kurtosis they imply; sim_nl returns the linear series and that series plus the second order terms of exactly the selected components.',
     'every amplitude, frequency (deep water), spectrum values and random draw for the stated numbers of components, depths and series',
     'Quadratic in all amplitudes, with index folding that shows only for particular pairs; tests compare two implementations with each other.',
     ['src/wafo/_misc_numba.py', 'src/wafo/spectrum/core.py'],
     [('disufq', 'src/wafo/_misc_numba.py: disufq'), ('qtf', 'src/wafo/spectrum/core.py: qtf'), ('stats_nl, sim_nl', 'src/wafo/spectrum/core.py: SpecData1D')])

prop('P35', 'Model wave spectra are the published formulas in every parameter',
     'For every significant wave height, peak period and frequency (and peakedness, width, depth, gravity, wind speed and fetch where the model has them) the Bretschneider, JONSWAP, TMA, Torsethaugen, McCormick, Ochi-Hubble and Wallop spectra, the peak enhancement, the depth limitation, the parametric and integrated normalisation, '
     'the peakedness and the fetch-limited sea state are the documented formulas; there is no energy at frequencies <= 0 or when Hm0 is zero; heights, periods and shape parameters out of range are refused; tospecdata holds the model at the frequencies asked for.',
     'every parameter and frequency within the stated ranges; exponents N and M fixed',
     'Formulas in up to eight parameters with branches on each; tests pin four ordinates of one sea state per model.',
     ['src/wafo/spectrum/models.py'],
     [('model spectra', 'src/wafo/spectrum/models.py: Bretschneider, Jonswap, Tmaspec, Torsethaugen, McCormick, OchiHubble, Wallop'), ('phi1, jonswap_peakfact, jonswap_seastate', 'src/wafo/spectrum/models.py')])

prop('P36', 'Directional spreading functions are the documented densities',
     'For every angle, main direction (constant or per frequency), frequency and spreading, the cos-2s, box, von Mises, Poisson, sech-2 and wrapped normal spreading functions are the documented densities of the angle from the main direction modulo 2 pi, with the parameter tied to the first Fourier coefficient; the spreading parameter follows '
     'the Mitsuyasu, Donelan and Banner frequency dependence; a directional spectrum is the frequency spectrum times the spreading; invalid spreading, methods, directions and incomplete circles are refused.',
     'every angle in about one and a half turns, main direction, spreading and frequency limits',
     'Wrapping of angles and the parameter relations matter between the sampled grid points; one test pins one spreading function.',
     ['src/wafo/spectrum/models.py'],
     [('Spreading', 'src/wafo/spectrum/models.py: Spreading')])

prop('P37', 'Declustering keeps exactly the highest peaks further apart than tmin',
     'For every record, sampling times (sorted or not, or left out), threshold and minimum distance, findpot and decluster return each peak once and in order of time: every one exceeds the threshold, any two are further apart than tmin, and every other value above the threshold lies within tmin of a returned peak at least as high; the data is left as it was.',
     'records up to 5 values with every order, tie, time and distance; patterns of clusters up to 8 samples',
     'Clusters may be anywhere, of any length and with ties; the tests only pin derived numbers of one record.',
     ['src/wafo/stats/core.py', 'src/wafo/misc.py'],
     [('findpot, decluster', 'src/wafo/stats/core.py: findpot, _remove_index_to_data_too_close_to_each_other, _find_ok_peaks, decluster')])

prop('P38', 'Threshold diagnostics and return periods are the documented statistics',
     'For every sample: edf and edfcnd pair the order statistics (of the values not below c) with the documented plotting positions; reslife gives mean excess, number and confidence limits of the values strictly above each threshold; dispersion_idx is variance over mean of the exceedances per block with the chi-square limits and picks the acceptable thresholds; '
     'sf2returnperiod and returnperiod2sf are inverse and nan exactly for impossible arguments, for scalars and arrays; extremal_idx and declustering_time are the documented functions of the gaps between exceedances; arguments are not modified.',
     'every sample of up to 5 values, thresholds, probabilities and rates',
     'Strict or not at the thresholds, blocks without data, ties and scalars matter at points tests do not sample.',
     ['src/wafo/stats/core.py'],
     [('edf, edfcnd, reslife, dispersion_idx', 'src/wafo/stats/core.py'), ('returnperiod2sf, sf2returnperiod, extremal_idx, declustering_time', 'src/wafo/stats/core.py')])

prop('P39', 'Cycle matrices, counting distributions and Markov rainflow matrices agree',
     'For every cycle matrix and every Markov chain of turning points: the counting distribution cmat2nt gives for each pair of levels i, j is the sum of the cycles with minimum level below i and maximum level above j, nt2cmat undoes it, nt2fr and fr2nt convert between counting distribution and frequency matrix and undo each other; mctp2rfc gives the rainflow matrix determined by the first passage probabilities of the chain, with or without a given Max-min matrix; '
     'mktestmat builds the matrix with the documented structure; none of these functions, nor mctp2tc, changes its arguments.',
     'every matrix of up to 4x4 real values; every chain of up to 4 levels',
     'Off by one rows and inclusive/exclusive levels of the counting distribution give plausible matrices; tests pin one.',
     ['src/wafo/markov.py'],
     [('cmat2nt, nt2cmat, nt2fr, fr2nt', 'src/wafo/markov.py'), ('mctp2rfc, mctp2tc, mktestmat', 'src/wafo/markov.py')])

prop('P40', 'Link functions of the profile likelihood solve for the parameter asked for',
     'For every quantile, survival probability and parameters, the parameter that a link function (wafo.stats.estimation.LINKS, used by the profile likelihood of quantiles and probabilities) returns gives the distribution exactly that survival probability at that quantile; an index outside the parameters raises IndexError, a documented missing link raises NotImplementedError, and every link is registered under the name of its distribution.',
     'every quantile, log survival probability, location, scale and (for the parameters not raised to a symbolic power) shape',
     'A wrong branch gives a confidence interval for another quantity; tests use one distribution and one index.',
     ['src/wafo/stats/estimation.py'],
     [('LINKS', 'src/wafo/stats/estimation.py')])

na('P15', 'Wave distributions computed by gaussian integration are probabilities',
   'Densities and probabilities computed from a spectrum by numerical integration of multinormal integrals (crest period/height, max-min, and conditional densities) are nonnegative, integrate to one and are consistent with each other.',
   'every spectrum and level grid',
   'Probabilities must be right for every spectrum; tests pin a few ordinates.',
   ['src/wafo/gaussian.py', 'src/wafo/spectrum/core.py'],
   [('prbnormnd, rind', 'src/wafo/gaussian.py'), ('to_t_pdf, to_mm_pdf', 'src/wafo/spectrum/core.py')],
   'the deciding code is Fortran (source/mvn, source/rind2007, source/mreg): there is no Fortran front end here to encode it with, and its randomised quadrature error cannot be stated in exact arithmetic')

na('P49', 'Adaptive quadrature reaches its requested accuracy',
   'quadgr, integrate_oscillating, romberg and quadrature by subdivision return integrals within the tolerance requested for smooth integrands.',
   'every smooth integrand',
   'Convergence for all integrands; tests integrate a few.',
   ['src/wafo/integrate.py', 'src/wafo/integrate_oscillating.py'],
   [('adaptive rules', 'src/wafo/integrate.py'), ('Levin method', 'src/wafo/integrate_oscillating.py')],
   'convergence of an adaptive iteration for arbitrary (non polynomial) integrands is not a bounded first order statement; exactness for polynomials is decided in P27')

na('P50', 'Distribution fitting maximises its criterion',
   'Maximum likelihood, product spacing and least squares fits of distributions and profile likelihood intervals return the optimum of their criterion.',
   'every sample',
   'Optimality over all samples; tests fit a few.',
   ['src/wafo/stats/estimation.py'],
   [('FitDistribution, Profile', 'src/wafo/stats/estimation.py')],
   'the optimum is found by scipy.optimize (Nelder-Mead) on transcendental likelihoods: an unbounded floating point search with no exact encoding within reach')
