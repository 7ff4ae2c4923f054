"""Property table: metadata, contract files, assumptions.  gen.py writes properties.jsonl and MANIFEST.json from it."""
COMMON = [
 "float/double/_Complex arithmetic is treated as exact real/complex arithmetic (rounding, overflow, NaN/Inf inputs not modelled)",
 "integer variables that stay symbolic are mathematical integers (no wrap-around); concrete ones follow C",
 "OpenMP regions are executed as one sequential schedule",
 "divisors that the code does not test are non-zero in the generic case (a division by an identically zero expression is an error)",
 "libm functions satisfy their algebraic laws (addition theorems of exp/sin/cos, sqrt(x)^2 = x, ...) and are otherwise uninterpreted",
]
TRUSTED = [
 "clang 18 front end (JSON AST of the real translation units, parsed on every run)",
 "cv/interp.py symbolic executor and cv/builtins.py libc/libm models (own verifier)",
 "cv/pit.py polynomial identity decision over GF(p), p ~ 2^160, error < 2^-100 per obligation",
 "z3 4.x (python3-vt) for inequalities and path feasibility",
 "the contracts under /verif/contracts (specification)",
]
PROPS = {}
def P(pid, **k): PROPS[pid] = k

P('P01', title='Composition of generalized reflection/transmission matrices is exact',
  statement='Stacking two layer stacks yields exactly the reflection and transmission of the combined stack: every incident wave produces the same outgoing and intermediate waves as solving the two stacks coupled through their common interface, also when the result overwrites an operand. Stacking is associative, an empty stack is neutral, and a singular coupling is reported as failure and never divided by.',
  over=['reflection/transmission matrices', 'aliasing of arguments', 'matrix sizes'], q='all complex 2x2 and scalar coefficients of both stacks, every aliasing pattern, every singular configuration',
  why='The identities are over a 20-dimensional complex space; tests sample a few Earth models where a wrong term is often numerically negligible.',
  files=['p_compose.c'], mech=[('2x2 matrix algebra', 'pygrt/C_extension/include/grt/common/matrix.h'), ('recursions', 'pygrt/C_extension/src/common/RT_matrix.c')])
P('P02', title='Dynamic interface and boundary coefficients satisfy the boundary conditions',
  statement='At every interface between solid and/or liquid layers, the computed reflection/transmission coefficients make displacement and traction continuous (with slip and vanishing shear traction along liquids), and at free, rigid or open boundaries they satisfy the corresponding condition, for P-SV and SH. Propagation through a layer multiplies each wave by its own one-way delay, wave-to-motion conversions and their inverses are consistent, and failure is reported exactly when the interface problem is singular.',
  over=['frequency', 'wavenumber', 'complex moduli', 'layer kinds', 'boundary types'], q='all complex frequencies and moduli, all wavenumbers and thicknesses, all solid/liquid pairings, all boundary types',
  why='Coefficients are closed forms over ten complex parameters; an error may only show for liquid layers, rigid/open boundaries or strong attenuation that tests never combine.',
  files=['p_layer.c'], mech=[('interface coefficients, boundaries, delays, receiver conversion', 'pygrt/C_extension/src/dynamic/layer.c')])
P('P03', title='Static interface and boundary coefficients satisfy the boundary conditions',
  statement='In the zero-frequency problem the computed coefficients of every interface make displacement and traction continuous, those of free, rigid and open boundaries satisfy the corresponding condition at the correct depth, and receiver displacement and vertical derivative are those of the same equilibrium field.',
  over=['wavenumber', 'moduli', 'thickness', 'boundary types'], q='all moduli, wavenumbers and thicknesses, both wave systems, every boundary type',
  why='Static fields contain secular (depth-times-exponential) terms whose errors cancel for special models, so sampled comparisons can pass.',
  files=['p_static_layer.c'], mech=[('static coefficients', 'pygrt/C_extension/src/static/static_layer.c')])
P('P04', title='Source terms produce exactly the jump of the equivalent body force',
  statement='For each of the six elementary sources (explosion, vertical and horizontal force, three double-couple/dipole combinations) the up- and down-going source waves differ by exactly the displacement-traction discontinuity of the equivalent body force, in the dynamic and the static problem with the same sign and unit. Unused components are zero.',
  over=['source type', 'medium', 'wavenumber', 'frequency'], q='all complex media, wavenumbers and frequencies, all six sources',
  why='A wrong source factor changes radiation only for one source type and wave system; reference outputs cover few of them.',
  files=['p_source.c'], mech=[('dynamic source coefficients', 'pygrt/C_extension/src/dynamic/source.c'), ('static source coefficients', 'pygrt/C_extension/src/static/static_source.c')])
P('P05', title='The layered-medium kernel solves the boundary-value problem',
  statement='For any layered model, source and receiver depth, the computed kernel is the displacement (and its vertical derivative) at the receiver of the unique field with the prescribed source discontinuity, continuity at all interfaces, the chosen top condition and the chosen bottom condition, whether the receiver is above or below the source, dynamic or static.',
  over=['models', 'source/receiver positions', 'boundary types', 'wavenumber', 'frequency'], q='all media, depths, wavenumbers, frequencies and boundary types; number of layers bounded per tier',
  why='The assembly has separate branches per relative position of source, receiver and interfaces; tests use a handful of models and mostly the free surface.',
  files=['p_kernel.c'], mech=[('assembly over layers', 'pygrt/C_extension/src/integral/kernel_template.c_'), ('source/receiver combination', 'pygrt/C_extension/src/integral/kernel.c')],
  tlimit=220, assumptions=['the number of layers (including the two source/receiver levels) is bounded: 4 quick, 5 thorough; all other quantities symbolic', 'non-singular interface systems'])
P('P06', title='Wavenumber integrands are the Bessel expansion of the displacement field',
  statement='For every source, order and distance the integrand terms are the kernel components multiplied by the cylindrical-harmonic Bessel factors of radial, transverse and vertical displacement, including the near-field J/(kr) part, the limits at zero distance and the exact radial derivatives. The large-argument (Filon) panels integrate their interpolating polynomials against the asymptotic Bessel functions exactly, and assembling the integrals yields each displacement component with the documented sign.',
  over=['wavenumber', 'distance', 'kernel values', 'source and order'], q='all kernel values, wavenumbers and distances (including zero), all sources and components',
  why='Each component mixes several Bessel orders with signs; errors affect single components or only the derivative, zero-distance or Filon variants that tests run without checking values.',
  files=['p_integrand.c'], mech=[('integrands and panels', 'pygrt/C_extension/src/integral/k_integ.c'), ('Bessel values', 'pygrt/C_extension/src/common/bessel.c'), ('quadratic fit', 'pygrt/C_extension/src/integral/quadratic.c'), ('index tables', 'pygrt/C_extension/src/common/const.c')])
P('P07', title='Wavenumber integration schemes compute the same integral',
  statement='Discrete summation, linear Filon, adaptive Filon and their combinations each accumulate every sampled wavenumber exactly once up to the stated limit, with the stated weight, for displacement and both derivatives and for every distance independently. Direct convergence subtracts an asymptote and adds back exactly the analytic integral of what was subtracted; peak-trough averaging returns the limit of steadily oscillating partial sums and leaves converged ones unchanged. A singular kernel stops the scheme without altering results already obtained.',
  over=['kernels', 'wavenumber limits and steps', 'distances', 'scheme combinations'], q='all kernels, steps, limits and distances; number of sampled wavenumbers bounded per tier',
  why='The schemes share accumulators and are combined at run time; a lost or doubled sample or an inconsistent asymptote is a small error in typical runs.',
  files=['p_quad.c'], tlimit=300, mech=[('discrete summation', 'pygrt/C_extension/src/integral/dwm.c'), ('Filon', 'pygrt/C_extension/src/integral/fim.c'), ('adaptive Filon', 'pygrt/C_extension/src/integral/safim.c'), ('direct convergence', 'pygrt/C_extension/src/integral/dcm.c'), ('peak-trough averaging', 'pygrt/C_extension/src/integral/ptam.c'), ('scheme control', 'pygrt/C_extension/src/integral/integ_process.c')],
  assumptions=['number of wavenumber samples bounded (2-6); adaptive Filon: at most one bisection, power-law kernels; peak-trough averaging: evenly oscillating or constant partial sums'])
P('P08', title='Radiation patterns are the moment tensor or force seen along the ray',
  statement='The azimuthal factors of every source mechanism (single force, explosion, moment tensor, double couple from strike/dip/rake, tensile crack) are the components of that force or moment tensor rotated into the radial/transverse/vertical frame at the receiver azimuth, scaled by moment and modulus, and the azimuthal derivative is their derivative. Channels that a mechanism does not excite are zero.',
  over=['azimuth', 'fault angles', 'tensor components', 'moment'], q='all azimuths, fault angles, tensors, forces and Vp/Vs ratios',
  why='An error in one trigonometric term only shows at particular azimuth/dip/rake combinations or in the derivative output.',
  files=['p_radiation.c'], mech=[('radiation factors', 'pygrt/C_extension/src/common/radiation.c')])
P('P09', title='Coordinate rotations of vectors, tensors and gradients are exact',
  statement='Rotating between the radial/transverse/up and the north/east/up frame is the orthogonal change of basis for vectors and symmetric tensors, and for displacement gradients it includes the curvilinear terms so that the result is the true Cartesian gradient; applying a rotation and its inverse returns the original.',
  over=['azimuth', 'distance', 'components'], q='all azimuths, distances and field components',
  why='Gradient rotation mixes nine derivatives with u/r terms; tests compare few azimuths against stored outputs.',
  files=['p_coord.c'], mech=[('rotations', 'pygrt/C_extension/src/common/coord.c')])
LIBC = 'C library, getopt, netCDF and FFTW calls behave as documented (executable models in cv/libc.py; decimal text of a number round-trips exactly)'
P('P10', title='Strain, rotation and stress outputs are those of the displacement field',
  statement='The strain and rotation commands output the symmetric and antisymmetric part of the displacement gradient in the frame of the input (including the curvilinear terms of the radial/transverse frame and the zero-distance limit), and the stress commands Hooke\'s law with the receiver\'s moduli: complex attenuating moduli per frequency for time series, elastic moduli per receiver for static results. Every sample or receiver point is treated alike and sample counts are preserved.',
  over=['displacement and gradient samples', 'frames', 'distances', 'receiver medium', 'file layout'], q='all sample values, distances and moduli, both frames, grid and point layouts; number of samples/points bounded',
  why='Tests run the commands without checking numbers; a wrong factor or index affects single tensor components.',
  files=['p_tensor.c'], tlimit=200, mech=[('dynamic strain', 'pygrt/C_extension/src/dynamic/grt_strain.c'), ('dynamic rotation', 'pygrt/C_extension/src/dynamic/grt_rotation.c'), ('dynamic stress', 'pygrt/C_extension/src/dynamic/grt_stress.c'), ('static strain', 'pygrt/C_extension/src/static/grt_static_strain.c'), ('static rotation', 'pygrt/C_extension/src/static/grt_static_rotation.c'), ('static stress', 'pygrt/C_extension/src/static/grt_static_stress.c'), ('SAC files', 'pygrt/C_extension/src/common/sacio.c')],
  assumptions=[LIBC, 'number of samples (1-4) and receiver points (1-6) bounded'])

P('P11', title='Earth models are read exactly; source and receiver become their own levels',
  statement='A model file in thickness or layer-top-depth format yields exactly the layers it describes; source and receiver are inserted as levels at exactly their depths without changing the medium at any depth (upper layer at an interface), in the order of their depths, also when they coincide or lie on an interface. Invalid layers, liquid layers where not allowed, depths on liquid interfaces, opposite-sign depths and a bounded bottom layer holding source or receiver are refused. Elastic moduli and vertical slownesses are those of the causal attenuation law at the given frequency and wavenumber.',
  over=['model files', 'source and receiver depth', 'frequency', 'wavenumber', 'Q'], q='all layer values and depths including coincident ones, both file formats, liquid and solid layers, all frequencies and wavenumbers; number of layers bounded (1-4)',
  why='Depth comparisons have many coincidence cases (equal depths, interfaces, last layer) that a handful of test models never hit.',
  files=['p_model.c'], tlimit=300, mech=[('model reading, levels, moduli', 'pygrt/C_extension/src/common/model.c'), ('attenuation law', 'pygrt/C_extension/src/common/attenuation.c'), ('line and comment handling', 'pygrt/C_extension/src/common/util.c')],
  assumptions=[LIBC, 'number of layers bounded: 1-3 quick, up to 4 thorough', 'velocities below 1e30 (sentinel of the minimum search)'])
P('P12', title='Source time functions and seismogram processing follow their definitions',
  statement='Parabolic, trapezoidal (or triangular or step-like), Ricker and user-supplied source time functions have unit peak (user-supplied: the file\'s samples), the stated shape and a duration rounded up to the sampling grid; invalid parameters are refused. Linear and circular convolution are the exact discrete convolutions for any lengths of signal and time function, integration is the cumulative trapezoidal rule and differentiation the central difference with one-sided ends.',
  over=['durations', 'sampling intervals', 'signal samples', 'lengths'], q='all sample values and durations on or off the sampling grid; lengths bounded',
  why='Rounding of durations to the grid and lengths of signal versus time function combine in many ways; tests run the commands for a few and never check samples.',
  files=['p_signal.c'], tlimit=200, mech=[('time functions, convolution, integration', 'pygrt/C_extension/src/dynamic/signals.c')],
  assumptions=[LIBC, 'signal lengths bounded (1-6), durations up to 4 intervals per segment, sampling intervals 0.25/0.5/2 (durations: any real)'])
P('P13', title='Synthetic seismograms are the source-weighted Green\'s functions',
  statement='The syn command outputs, for every mechanism (explosion, force, moment tensor, double couple, tensile crack), the sum of Green\'s functions weighted by the radiation of that source at the given azimuth and moment (times the source rigidity on request); with derivatives the spatial gradient including zero distance, rotated to north/east/up on request, then convolved (without wrap-around amplification of the damped record) with the source time function and integrated or differentiated. From a library with several depths and distances exactly the requested entry is used; ambiguous, missing or invalid requests are refused.',
  over=['source mechanism', 'azimuth', 'distance', 'samples', 'time functions', 'library layout'], q='all sample values, mechanisms, azimuths, distances and source media; record lengths bounded',
  why='Tests run the command for a few mechanisms without checking samples; unit and sign slips in the gradient, rigidity or time function only change amplitudes.',
  files=['p_syn.c'], tlimit=200, mech=[('syn command', 'pygrt/C_extension/src/dynamic/grt_syn.c'), ('radiation factors', 'pygrt/C_extension/src/common/radiation.c'), ('rotations', 'pygrt/C_extension/src/common/coord.c')],
  assumptions=[LIBC, 'record length bounded (1-4 samples), time function up to 5 samples', 'library selection: listed depths and distances', 'radiation factors by contract (P08) where every used factor is non-zero; the zero cases by listed mechanisms'])
P('P14', title='Searches, sorting and receiver ranges select exactly the documented elements',
  statement='Binary and linear searches return the position whose neighbours bracket the value, or report that it lies outside; minimum/maximum and nearest-element searches return an element that no other beats; insertion keeps arrays sorted. A range a1/a2/step contains a1, every following multiple of the step and a2 whenever the interval is a whole number of steps up to rounding. Interpolation positions have weights in [0,1] that reproduce the value.',
  over=['array contents', 'array lengths', 'searched values', 'ranges and steps'], q='all sorted array contents and searched values; array lengths bounded per tier',
  why='Off-by-one positions and lost end points depend on ties, boundaries and the rounding of one particular step; tests use a few benign ranges.',
  files=['p_search.c'], mech=[('searches', 'pygrt/C_extension/src/common/search.c'), ('ranges', 'pygrt/C_extension/src/common/util.c')],
  assumptions=[LIBC, 'array lengths bounded (1-6)', 'rounding of ranges: listed decimal steps and random samples, executed natively'])
P('P15', title='Static synthesis interpolates the library and adds the sources correctly',
  statement='The static syn command outputs, for every mechanism, receiver grid or point list, the radiation-weighted sum of library Green\'s functions, interpolated linearly in distance and in source and receiver depth between the bracketing entries, zero beyond the library distances, with rigidity and moduli of the bracketing source levels; derivatives are the spatial gradient of that field, also at zero distance, rotated to north/east/up on request. A library written and read back has the same distances; invalid requests are refused.',
  over=['source mechanism', 'receiver positions', 'library layout', 'depths', 'derivatives'], q='all library values, moments, mechanisms and media; listed library geometries and receiver positions',
  why='Bracketing, zero-distance and unsorted-library branches interact; tests run the command without checking interpolated values or gradients.',
  files=['p_ssyn.c'], tlimit=300, mech=[('static syn command', 'pygrt/C_extension/src/static/grt_static_syn.c'), ('static library', 'pygrt/C_extension/src/static/stgrnlib.c'), ('receiver points', 'pygrt/C_extension/src/static/recv_points.c')],
  assumptions=[LIBC, 'listed library geometries (distances, depths) and receiver positions'])
P('P16', title='Finite faults are the exact superposition of their pieces',
  statement='A Coulomb fault file is read into the documented slip components per kind; strike, rake, net slip follow from the geometry. The plane is divided into pieces that tile it exactly with at most the requested size, each with its own centre, depth and potency, and no empty piece. The synthesized field is the sum over all faults and pieces of point sources with that mechanism and potency in the receiver frame. Invalid files, geometries and requests are refused.',
  over=['fault geometry', 'slip components', 'piece sizes', 'receivers'], q='all geometries, slips and piece sizes for reading and subdivision; listed geometries for synthesis',
  why='Kinds and slip components map to different mechanisms and signs; the last, shorter piece and dipping geometry only matter for particular sizes.',
  files=['p_fault.c'], tlimit=300, mech=[('fault reading and subdivision', 'pygrt/C_extension/src/common/finite_fault.c'), ('superposition', 'pygrt/C_extension/src/static/grt_static_syn.c')],
  assumptions=[LIBC, 'synthesis: listed fault geometries and receivers', 'number of pieces per direction bounded (1-3) in the tiling proof', 'radiation factors by contract (P08)'])
WK = 'wavenumber integral (P06, P07), searched wavenumber limit and travel times (P19, P20) enter by contract, with arbitrary results'
P('P17', title='Dynamic Green\'s functions: all frequencies, distances and traces are complete',
  statement='The greenfn command computes exactly the requested frequencies, depths and distances with wavenumber limits, steps and convergence method as documented, turns the integrals of each frequency into spectra with the documented scaling for displacement and both derivatives, and writes for every source, component and distance the inverse Fourier transform of that spectrum, with time origin, damping, upsampling, unit sign conventions and header values correct. No frequency, distance or pair of depths influences another. Invalid requests are refused.',
  over=['frequencies', 'distances', 'depth pairs', 'integration options', 'integral values', 'time windows'], q='all integral values, media, limits and time windows; numbers of samples, frequencies, distances and depths bounded',
  why='Scaling, band edges, imaginary frequency and delays combine across the loops over frequency, distance and depth; tests run the command without checking samples.',
  files=['p_grnspec.c', 'p_grncli.c'], tlimit=300, mech=[('frequency loop', 'pygrt/C_extension/src/dynamic/grn.c'), ('spectra', 'pygrt/C_extension/src/dynamic/grnspec.c'), ('greenfn command', 'pygrt/C_extension/src/dynamic/grt_greenfn.c'), ('inverse transform', 'pygrt/C_extension/src/common/myfftw.c')],
  assumptions=[LIBC, WK, 'samples (2-8), frequencies (1-4), distances (1-3) and depths (1-2) bounded', 'upsampling of even-length records: Nyquist term excluded (convention not documented)', 'parallel frequency loop executed sequentially (independence of iterations follows from the contract being proved for every order of values, not from a schedule exploration)'])
P('P18', title='Static Green\'s function libraries are complete and correctly scaled',
  statement='The static greenfn command integrates every pair of source and receiver depth with the documented wavenumber limit, step and convergence method, integrates every distinct distance of the receiver grid, and stores for every depth pair, grid point, source and component the integral of that distance with the documented scaling and sign, together with coordinates, media at the source and receiver and the model. Reading the library back yields the same values. Invalid requests are refused.',
  over=['depth pairs', 'receiver grids', 'integration options', 'integral values', 'media'], q='all integral values and media and integration parameters; listed depth sets and receiver grids',
  why='Index mapping between grid points, sorted distances and depth pairs is only visible when several of each are combined; tests do not check library entries.',
  files=['p_sgrn.c'], tlimit=300, mech=[('static frequency-zero integration', 'pygrt/C_extension/src/static/static_grn.c'), ('static greenfn command', 'pygrt/C_extension/src/static/grt_static_greenfn.c'), ('static library', 'pygrt/C_extension/src/static/stgrnlib.c')],
  assumptions=[LIBC, WK, 'listed depth sets (1-2 each) and receiver grids (1-6 points)'])
P('P19', title='Travel times are the first arrivals of the layered medium',
  statement='The time computed for a source depth, receiver depth and distance is the earliest of the direct ray (to the documented distance accuracy of 1e-3 km when it crosses layers) and of every head wave along a layer faster than all layers on its way, for P and S independently, also for points on interfaces, with low-velocity or liquid layers and with source and receiver exchanged; without an arrival through a liquid the documented marker is returned. The travt command and the file interface return these times for every requested distance; invalid requests are refused.',
  over=['layer velocities and thicknesses', 'depths', 'distances'], q='all thicknesses and distances for source and receiver in one layer and for head waves; listed velocity sets; direct rays across layers for listed ray parameters',
  why='Which arrival is first depends on the order of velocities and on points lying exactly on interfaces; tests compare a few times in one model.',
  files=['p_travt.c', 'p_travcli.c'], tlimit=200, mech=[('travel times', 'pygrt/C_extension/src/common/travt.c'), ('travt command', 'pygrt/C_extension/src/tools/grt_travt.c')],
  assumptions=[LIBC, 'listed velocity sets of 2-3 layers', 'rays across several layers: listed thicknesses, distances within 1e-3 km of listed rays; otherwise head waves only'])
P('P20', title='The searched wavenumber limit stops only where the kernel has decayed',
  statement='The automatic search of the wavenumber limit starts at the given wavenumber, advances by the adaptive factor but never by more than a fortieth of the upper limit, and returns the first wavenumber from which every existing channel (displacement and vertical derivative, each relative to its own maximum) has met the decay criterion three times in a row beyond the lower bound: decay to zero for different depths, decay to a constant for equal depths. If there is none, or nothing to search, the upper limit is returned. Channels that do not exist have no influence.',
  over=['kernels', 'channels', 'limits and steps'], q='all kernel amplitudes, every channel; listed decay histories and intervals',
  why='A channel that decays late, a recovery after two converged samples or the lower bound decide whether the integral is truncated; tests never look at the limit.',
  files=['p_kmax.c'], tlimit=200, mech=[('limit search', 'pygrt/C_extension/src/integral/kmax.c')],
  assumptions=['listed histories of the slowest channel; search intervals listed (factor at its lower bound, upper bound and in between)'])
P('P21', title='Okada solutions are exact and applied to the right source and receiver',
  statement='For every half-space, depth, dip and position the point-source solution has the closed-form surface displacement of Okada, satisfies elastic equilibrium inside the half-space with a traction-free surface, and its derivative outputs are the derivatives of its displacement. The rectangular fault is exactly the integral of point sources over its area, derivatives included, and vanishes without length or width; singular points and points above the surface are reported. The okada command passes the medium, the potencies or slips of every source type (moment over rigidity; area times slip) and the receiver in fault coordinates, and writes the sum over all faults in the requested components and units; singular receivers of point sources are moved or left out, those of faults and invalid requests are refused.',
  over=['half-space', 'depth and dip', 'receiver positions', 'fault rectangles', 'slips and potencies', 'source types'], q='all half-spaces, depths, dips, positions, rectangles and slips in general position (unbounded); special positions and dips by listed cases and sampling',
  why='Hundreds of closed-form terms whose single signs only show for one slip component, derivative or depth; the tests compare a few configurations with references at one Poisson ratio.',
  files=['p_okada.c', 'p_okadacli.c'], tlimit=400, mech=[('Okada solutions', 'pygrt/C_extension/src/okada/okada.c'), ('okada command', 'pygrt/C_extension/src/okada/grt_okada.c')],
  assumptions=[LIBC, 'uniqueness of the elastic half-space solution (surface displacement with zero traction and equilibrium determine the field)', 'vanishing of sin/cos within 1e-6 of their zeros and of coordinates below 1e-6 as in the original (general position assumed at that margin)', 'dips of the command: 0 to 90 degrees', 'special positions of the rectangle (in its plane, in line with an edge): sampled against quadrature, bounded', 'Okada solution by contract in the command'])
