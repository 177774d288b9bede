"""Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
B = ['meent/on_numpy', 'meent/on_jax', 'meent/on_torch']
TM = [f'{b}/emsolver/transfer_method.py' for b in B]
BASE = [f'{b}/emsolver/_base.py' for b in B]
RC = [f'{b}/emsolver/rcwa.py' for b in B]
CONV = [f'{b}/emsolver/convolution_matrix.py' for b in B]
FOU = [f'{b}/emsolver/fourier_analysis.py' for b in B]
FD = [f'{b}/emsolver/field_distribution.py' for b in B]
MOD = [f'{b}/modeler/modeling.py' for b in B]
PRIM = [f'{b}/emsolver/primitives.py' for b in B]
OPT = ['meent/on_jax/optimizer/optimizer.py', 'meent/on_torch/optimizer/optimizer.py']


def m(*pairs):
    return [dict(name=n, where=w) for n, w in pairs]


P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=mech, observe_at=observe, hook_needed=None)))


IN = ['inputs', 'configurations']
SOLVE = ['results returned by a solve (efficiencies, amplitudes) of call_mee(...).conv_solve()']

prop('C01', 'Lossless structures conserve energy',
     'For a structure whose refractive indices are all real, the reflected and transmitted efficiencies over all diffraction '
     'orders add up to exactly the incident power (to rounding), at any truncation order, on every backend and with either '
     'Fourier method. Each efficiency lies between 0 and 1, every order the grating equation makes evanescent carries none, '
     'and the s and p parts of each order add up to that order. The same holds for the companion pure-TE and pure-TM results.',
     IN, 'all real-index stacks, periods, wavelengths, angles, polarizations, truncations, Fourier methods and backends',
     'The bundled QA scripts look at a few structures; exact conservation at every truncation, incidence and layer count is a statement about all inputs.',
     TM + BASE + CONV, m(('power weights of the orders', 'transfer_*_4 in each transfer_method.py'),
                         ('hermitian permittivity operators', 'to_conv_mat_* in convolution_matrix.py')), SOLVE)

prop('C02', 'Absorption is non-negative and is the power lost inside the layers',
     'With absorbing materials (negative imaginary index, in the layers or the substrate) the efficiencies are finite and '
     'non-negative and reflection plus transmission never exceeds 1. The power flowing downward, computed from the returned field '
     'map, equals 1 minus reflection at the top of the stack and transmission at its bottom, and never increases with depth.',
     IN, 'all passive stacks (dielectric, weakly/strongly absorbing, metallic; absorbing substrate), angles, polarizations, backends',
     'No test integrates the power flow or sweeps lossy media; the sign conventions of loss only fail in particular combinations of polarization, formulation and medium.',
     TM + FD + BASE, m(('choice of the decaying branch', 'transfer_*_1'), ('field reconstruction', 'field_dist_*')),
     SOLVE + ['arrays returned by calculate_field / conv_solve_field'])

prop('C03', 'Uniform stacks reproduce Fresnel and thin-film optics',
     'When every layer is uniform, all power stays in the specular order, whatever the truncation order or the way the uniform layer '
     'is described, and its reflection and transmission (efficiencies and complex amplitudes, for both polarizations) equal the '
     'closed-form thin-film result for any real or absorbing layers and substrate. This includes total internal reflection, '
     'Brewster incidence, a bare interface and layers of zero thickness.',
     IN, 'all uniform stacks, indices, thicknesses, angles below 90 degrees, azimuths, polarizations, backends, formulations',
     'Tests do not compare against an analytic solution, and the closed form ranges over a continuum of indices, angles and thicknesses.',
     TM + BASE, m(('interface matching', 'transfer_*_3/4'), ('half-space admittances', 'transfer_*_1')), SOLVE)

prop('C04', 'Every diffraction order solves Maxwell equations for the given grating',
     'For any layered periodic structure the efficiency of every reflected and transmitted order, its s and p parts and its complex '
     'amplitudes equal those of an independent coupled-wave solution of Maxwell equations with the same orders and exact Fourier '
     'coefficients. Orders are laid out with y orders along rows and x orders along columns, from most negative to most positive, '
     'with the specular order in the centre.',
     IN, 'all raster structures (1D scalar, 1D conical, 2D; lossless, lossy, metallic), layer counts, angles, polarizations, truncations, backends',
     'Tests compare a handful of configurations with stored or mutual results; correctness is per order and for every structure.',
     TM + BASE + CONV + FOU, m(('coupled-wave eigenproblem', 'transfer_*_2'), ('layer recursion', 'transfer_*_3'),
                               ('continuous Fourier series', 'cfs2d')), SOLVE)

prop('C05', 'The three backends return the same physics',
     'For one and the same problem, including raster cells under either Fourier method (plain or enhanced sampling), vector shapes and '
     'the pseudo-inverse option, the NumPy, JAX and PyTorch backends return the same efficiencies, the same s and p parts and the '
     'same amplitude magnitudes, for the requested polarization as well as for the companion TE and TM results.',
     IN, 'all problems accepted by all backends',
     'Three separate implementations can drift apart on any input; tests only compare selected configurations by eye.',
     RC + TM + CONV + FOU + MOD, m(('three parallel implementations', 'meent/on_numpy, meent/on_jax, meent/on_torch')), SOLVE)

prop('C06', 'The solution does not depend on which formulation handles the problem',
     'A one-dimensional grating gives the same orders whether it is solved by the scalar TE/TM, the conical or the two-dimensional '
     'formulation: giving azimuth 0 explicitly, repeating its single row, describing it as vector shapes or requesting orders along the uniform axis '
     'changes nothing in the orders shared, and the extra orders are empty. A mixed polarization at zero azimuth is the '
     'corresponding mixture of the TE and TM solutions.',
     IN, 'all 1D gratings, angles, polarizations, truncations, backends',
     'The dispatcher silently selects among three code paths; tests exercise each on its own structures.',
     RC + TM + BASE, m(('formulation dispatch', '_assign_grating_type in rcwa.py')), SOLVE)

prop('C07', 'Equivalent descriptions of one geometry give the same result',
     'Subdividing the pixels of a raster cell, adding or removing redundant rows and columns, describing the same cell '
     'by vector rectangles, or taking several periods as one (the additional orders staying empty) leaves every order unchanged with exact Fourier coefficients; reordering shapes that do not overlap changes nothing '
     'and a later shape hides an earlier one, also when edges coincide with each other or with the borders of the cell. With the sampled Fourier method the result depends only on the cell and approaches the exact one as '
     'sampling is refined.',
     IN, 'all cells, pixel grids, subdivisions, shape lists, truncations, both Fourier methods, all backends',
     'There are infinitely many descriptions of a geometry; tests use one description per structure.',
     CONV + FOU + MOD, m(('redundancy removal', 'cell_compression'), ('grid from shapes', 'vector_per_layer_numeric'),
                         ('Fourier coefficients', 'cfs2d / dfs2d')), SOLVE)

prop('C08', 'Polarization acts linearly and pol and psi mean the same',
     'The amplitudes for any linear polarization are the cosine/sine combination of the companion pure-TM and pure-TE solutions '
     'returned with it, and the companions do not depend on the requested polarization. Setting the polarization as a TM portion or as '
     'the equivalent angle gives identical results, with portion 0 meaning TE (E perpendicular to the plane of incidence) and 1 meaning TM.',
     IN, 'all structures, polarization angles, incidence angles, conical and 2D formulations, backends',
     'Superposition is a universally quantified identity over polarization angle and structure; no test checks it.',
     TM + BASE, m(('incident vector', 'transfer_1d_conical_4 / transfer_2d_4'), ('pol and psi setters', '_base.py')), SOLVE)

prop('C09', 'Results respect the symmetries of the problem',
     'Scaling all lengths together, shifting the pattern inside the period, mirroring the pattern together with the incidence, and exchanging the x and y axes '
     'of crossed line gratings together with periods, truncations and azimuth map the efficiencies of the orders onto each other exactly as the symmetry demands; '
     'a shift multiplies each amplitude only by its phase. Full turns of the azimuth and half turns combined with a negated incidence angle change nothing.',
     IN, 'all structures, shifts, scale factors, mirrors, axis exchanges, azimuth turns, backends',
     'Symmetries relate pairs of runs over all structures; no test runs such pairs.',
     TM + BASE + CONV + FOU, m(('in-plane wavevectors', 'get_kx_ky_vector'), ('Fourier phases', 'cfs2d / dfs2d')), SOLVE)

prop('C10', 'Only the layer profile matters, not how the stack is sliced',
     'Cutting a layer into several identical slices whose thicknesses add up, merging them, or inserting a layer of zero thickness anywhere '
     'in the stack leaves all orders unchanged, for any number of layers. Layers are ordered from the incidence side to the substrate, each with the thickness at the same position.',
     IN, 'all stacks, slicings, thicknesses including zero, backends, formulations',
     'The recursion over layers is exercised by tests for one or two layers of fixed thickness.',
     TM + BASE, m(('layer recursion', 'transfer_*_3 and the loop in solve_*')), SOLVE)

prop('C11', 'Light paths are reversible',
     'For structures of real or absorbing isotropic materials between lossless half-spaces, the power diffracted from one incidence direction and polarization into an '
     'outgoing direction equals the power diffracted when the path is reversed, in reflection and, with the structure turned '
     'upside down, in transmission. This holds order by order, including lossy structures and conical incidence.',
     IN, 'all reciprocal structures, incidence directions, propagating orders, backends',
     'Reciprocity links two different runs for every propagating order of every structure.',
     TM + BASE + CONV, m(('symmetric eigenproblem', 'transfer_*_2'), ('layer recursion', 'transfer_*_3')), SOLVE)

prop('C12', 'Field maps are the Maxwell fields of the solved problem',
     'The returned field map holds, at every sample point of every layer, the electric and magnetic field of the solved problem in the '
     'documented component order and sign convention, equal to an independent solution up to that convention. Tangential components are continuous '
     'across layer boundaries, the map repeats over the period up to the incidence phase, and its resolution or which companion polarization maps are requested does not alter the values at common points.',
     IN, 'all structures, layer counts, sample resolutions, requested polarizations, formulations, backends',
     'Field plots are inspected by eye; pointwise correctness over structures and resolutions is not covered by assertions.',
     FD + RC, m(('field reconstruction from mode amplitudes', 'field_dist_1d / _1d_conical / _2d'),
                ('public convention', 'calculate_field in rcwa.py')), ['arrays returned by calculate_field / conv_solve_field'])

prop('C13', 'Automatic gradients are the true derivatives',
     'Derivatives obtained by automatic differentiation on the JAX and PyTorch backends, with respect to layer thickness, cell indices (real or complex, one or several layers), period, '
     'incidence angles, polarization angle, wavelength and half-space indices, and shape parameters, equal the numerical derivatives of the same efficiencies. '
     'No parameter handed over as differentiable is silently dropped, including at symmetric structures, uniform layers and normal incidence, as long as no two modes that the parameter mixes coincide.',
     IN, 'all structures, parameters, formulations and Fourier methods on both differentiable backends',
     'Tests check that optimisation runs; equality with finite differences is required at every input, also where eigenvalues coincide.',
     [f for f in TM + PRIM + CONV + FOU + BASE if 'numpy' not in f], m(('custom derivative of the eigen-decomposition', 'primitives.py'),
                                                                       ('graph-preserving setters', 'on_torch/emsolver/_base.py')),
     ['gradients from torch autograd and jax.grad of conv_solve results'])

prop('C14', 'Anisotropic cells are solved with each axis using its own index',
     'A PyTorch cell with separate x, y and z indices gives the orders of an independent Maxwell solution with that diagonal permittivity, for raster and vector descriptions. '
     'It coincides with the isotropic result when the three indices are equal, and uniform anisotropic films follow the '
     'closed-form ordinary and extraordinary reflection.',
     IN, 'all diagonal-anisotropic structures, angles, polarizations, formulations, both Fourier methods (torch)',
     'Each permittivity axis enters a different operator, so mix-ups only show for particular polarization/azimuth/pattern combinations.',
     ['meent/on_torch/emsolver/rcwa.py', 'meent/on_torch/emsolver/convolution_matrix.py', 'meent/on_torch/emsolver/transfer_method.py',
      'meent/on_torch/modeler/modeling.py'],
     m(('three permittivity operators', 'to_conv_mat_* (torch)'), ('aniso dispatch', '_assign_grating_type (torch)')), SOLVE)

prop('C15', 'A solver object has no memory of earlier work',
     'After any sequence of parameter changes, solves and field evaluations, the next result equals that of a new object built with the current '
     'parameters. Solving twice gives the same answer, earlier results and caller-owned arrays and lists are never modified, what the caller later does with a NumPy array or number list it handed over does not reach the solver, and two solver '
     'objects never influence each other.',
     ['histories', 'inputs', 'configurations'], 'all sequences of attribute changes, solves and field evaluations on one or several objects, all backends',
     'Stale state shows only after specific histories; tests build a new object per case.',
     RC + BASE + MOD, m(('per-solve reset of stored state', 'solve_1d / solve_1d_conical / solve_2d'), ('property setters', '_base.py'),
                        ('dispatch before each solve', '_assign_grating_type')), SOLVE + ['caller-owned inputs after the call'])

prop('C16', 'Single precision is an approximation of double precision',
     'With single precision selected, efficiencies of well-conditioned problems agree with the double-precision result to single-precision accuracy, on every backend and formulation, '
     'and results and fields have single-precision type. Selecting the precision by any accepted name means the same, and double precision is the default.',
     IN, 'all well-conditioned problems, formulations, Fourier methods, backends, precision names',
     'A wrong cast passes any loose comparison on a single structure.',
     RC + BASE + TM + CONV + FOU, m(('type_complex handling', '_base.py')), SOLVE)

prop('C17', 'Equivalent ways to pass a parameter agree and invalid ones are refused',
     'Accepted spellings (numbers, lists, tuples, arrays) that denote the same period, thickness, truncation, angle, index or cell give identical results on every backend, whether passed at construction or '
     'assigned later, and defaults are as documented. Values outside the accepted domain (polarization portion outside 0..1, unknown precision, Fourier method, backend or connection '
     'algorithm, malformed truncation or cell) are refused with an error instead of producing numbers.',
     IN, 'all accepted spellings of each parameter and all classes of invalid values, all backends',
     'The number of spellings times parameters times backends is not enumerated by tests.',
     ['meent/main.py'] + RC + BASE, m(('normalising setters', '_base.py'), ('backend selection', 'main.py')), SOLVE + ['exceptions raised'])

prop('C18', 'Material lookup returns the tabulated index',
     'Looking up a bundled material by name (any letter case) at a wavelength returns the tabulated n and k linearly interpolated, as n - ik, '
     'equal to the data at table points whatever the order of the rows, clamped with a warning outside the range and without one inside (fitted materials are evaluated there instead); the real-only suffix drops absorption. All backends '
     'return the same value for every material, and the catalogue lists every table with its true range.',
     IN, 'all bundled materials and user tables, all wavelengths (scalar and array), all backends',
     'There are hundreds of tables and a continuum of wavelengths; tests sample none of the interpolated values.',
     MOD + ['meent/dispersion.py', 'meent/nk_data'], m(('table reading and interpolation', 'read_material_table / find_nk_index')),
     ['return values and warnings of find_nk_index, read_material_table, list_materials'])

prop('C19', 'Dispersion models evaluate their defining formulas',
     'Materials stored as Sellmeier fits, Gaussian-broadened oscillator models or graphene conductivity give the index that the defining formula yields for their stored coefficients, with passive absorption (n - ik, k >= 0 '
     'for the physical models) and wavelengths in metres, scalars and arrays alike. Graphene specifications accept exactly finite positive conditions and vary with them as the conductivity model prescribes.',
     IN, 'all formula materials, wavelengths, graphene conditions, invalid conditions',
     'The formulas are functions of continuous parameters; tests evaluate none of them against an independent computation.',
     ['meent/dispersion.py'] + MOD, m(('formula evaluation', 'dispersion.evaluate'), ('header parsing', 'dispersion.parse_header')),
     ['return values of find_nk_index and graphene_falkovsky'])

prop('C20', 'Filling a cell with materials puts each index where its label says',
     'Filling a labelled cell with a list of materials (names, formula specifications, or plain real or complex indices) replaces each label by the index of the material at that list '
     'position at the given wavelength and nothing else, keeping the shape and leaving the label cell and list untouched. Repeated fills at different wavelengths never reuse stale values, and the filled cell solves like the same indices entered by hand.',
     ['inputs', 'histories'], 'all label cells, material lists mixing names/specs/numbers, wavelengths, NumPy and PyTorch backends',
     'Label collisions and stale values appear only for particular label/index/order combinations.',
     ['meent/on_numpy/modeler/modeling.py', 'meent/on_torch/modeler/modeling.py'],
     m(('label replacement', 'put_refractive_index_in_ucell')), ['return value of put_refractive_index_in_ucell'])

prop('C21', 'Vector shapes cover the area they describe',
     'A rectangle (centre, side lengths, rotation) and an ellipse are decomposed into axis-aligned pieces inside the shape\'s bounding box that cover the shape, converging to it as the splitting is '
     'refined and exact for rectangles turned by multiples of 90 degrees; a rectangle keeps its area and centre at any splitting. The decomposition follows the rotation sense and centre in every quadrant, is the same on every backend, and the '
     'solved cell shows the given index exactly on those pieces.',
     IN, 'all shape parameters, rotation angles in all quadrants, split counts, backends',
     'Each quadrant and orientation is a separate branch; drawing examples cover a few angles.',
     MOD, m(('shape decomposition', 'rectangle / ellipse'), ('grid assembly', 'vector_per_layer_numeric')),
     ['piece lists returned by rectangle/ellipse, Fourier content seen through solves'])

prop('C22', 'The built-in optimiser follows the gradient it reports',
     'One gradient request returns the true derivative of the loss for each named parameter and leaves the parameters unchanged; a fit with plain gradient '
     'descent of thicknesses, periods or cells moves each named parameter by exactly the step times its gradient per iteration (with momentum or Adam, by that rule with its state carried along), leaves all others and the caller\'s arrays alone, runs the requested number of iterations and '
     'stores the result in the solver. The two differentiable backends produce the same trajectory, and a gradient does not depend on requests made before.',
     ['inputs', 'histories'], 'all structures, named parameter sets, losses, iteration counts, both differentiable backends',
     'Tests only run an optimisation; the trajectory for arbitrary losses and parameters is not compared with anything.',
     OPT, m(('optimisation loop', 'OptimizerTorch.fit / OptimizerJax.fit'), ('gradient', 'grad')),
     ['return values of grad/fit and the parameters stored afterwards'])

prop('C23', 'Extreme but valid inputs give finite, continuous answers',
     'Normal and near-grazing incidence, orders exactly at cutoff, zero and very large thicknesses (hundreds of wavelengths, strongly evanescent or absorbing), tiny contrasts, index-matched and repeated-index layers, extreme length units, single-pixel cells and truncation 0 all return finite efficiencies that '
     'conserve energy when lossless and agree with the limit of nearby inputs; the field maps there are finite and carry the same powers.',
     IN, 'all extreme but valid parameter combinations on all backends and formulations',
     'Overflow, division by zero and ill-conditioning only occur at special parameter values that tests do not visit.',
     TM + BASE + PRIM, m(('bounded exponentials in the layer recursion', 'transfer_*_3'), ('perturbation of exact zeros', '_base.py')), SOLVE)

prop('C24', 'Transformed JAX solves equal plain ones',
     'Compiling a solve with jit (sampled Fourier method), mapping it over a batch of parameter values with vmap, flattening and rebuilding the solver or passing it through a transformation (crossed cells), and passing parameters as call arguments '
     'all return what the plain solve returns for the same parameters. Every option of the solver survives the transformation, solves never hang, and '
     'transforming never leaves the solver unusable or changes its later answers once its parameters are set again.',
     ['inputs', 'configurations', 'histories'], 'all structures and options on the JAX backend, jit/vmap/pytree transformations',
     'Tracing executes different code than eager evaluation and depends on which parameters are traced.',
     ['meent/on_jax/mee.py', 'meent/on_jax/__init__.py', 'meent/on_jax/emsolver/rcwa.py', 'meent/on_jax/emsolver/_base.py', 'meent/on_jax/emsolver/primitives.py'],
     m(('pytree registration', 'MeeJax._tree_flatten/_tree_unflatten'), ('keyword parameters of a solve', 'RCWAJax.conv_solve')), SOLVE)

prop('C25', 'Solvers can be used from several threads at once',
     'Threads that each use their own solver object - same or different backends - get the results they would get running alone: solves, field maps, gradients, material lookups and cell fills '
     'do not influence each other under any interleaving, and never block each other for good.',
     ['schedules', 'inputs', 'histories'], 'all interleavings of scripts on separate objects, all backends',
     'Shared state shows only under particular schedules; the tests are single-threaded.',
     RC + BASE + TM + MOD + ['meent/dispersion.py'], m(('state kept on the object only', 'rcwa.py / modeling.py'), ('material table', 'read_material_table')), SOLVE + ['field maps, gradients, filled cells per thread'])

prop('C26', 'Copies of solvers and results are equivalent and independent',
     'A copied, deep-copied or pickled solver (NumPy and PyTorch; shallow copies also on JAX) has all parameters and options of the original, solves to the same result, also in another process, and yields the same field map if it was solved; afterwards assigning '
     'parameters or solving on either never affects the other. Copied and pickled results keep the values of the original on every backend.',
     ['inputs', 'histories', 'configurations'], 'all solver states, ways of copying and interleavings of later changes',
     'Sharing and lost options show only after copying in a particular state and changing one side.',
     RC + BASE + MOD + ['meent/on_numpy/mee.py', 'meent/on_torch/mee.py', 'meent/on_jax/mee.py'], m(('all state in plain attributes', 'rcwa.py / _base.py')), SOLVE + ['field maps'])

prop('C27', 'Results converge to the exact solution as orders are added',
     'For lossless lamellar gratings, TE and TM, the efficiencies approach the exact solution of Maxwell equations for the described profile as the truncation grows, whichever description or formulation is used; the remaining error is commensurate with the change '
     'caused by the last added orders (correct factorisation rules in both polarizations).',
     IN, 'all piecewise-constant dielectric profiles, angles, polarizations, descriptions, backends',
     'A wrong factorisation or coefficient still conserves energy and converges to a plausible number; tests have no exact reference.',
     CONV + FOU + TM, m(('factorisation of the permittivity', 'cfs2d'), ('coupled equations', 'transfer_1d_* / transfer_2d_*')), SOLVE)

prop('C28', 'Failures of the linear algebra library do not change results',
     'When the matrix inversion of the PyTorch backend fails at an ill-conditioned matrix, the automatic fallback returns what a successful inversion would: efficiencies, amplitudes, polarization '
     'companions, field maps, precision and gradients are the same whichever calls failed, and later solves are unaffected.',
     ['crash_points', 'inputs'], 'all structures, all subsets of failing inversions, both precisions, forward and backward pass',
     'The library fails only at rare near-singular matrices; the fallback path is never run by a test.',
     ['meent/on_torch/emsolver/primitives.py', 'meent/on_torch/emsolver/transfer_method.py', 'meent/on_torch/emsolver/_base.py'],
     m(('fallback inversion', 'RobustPinv / meeinv')), SOLVE + ['field maps', 'gradients', 'injected library failures'])

prop('C29', 'Field plots show the requested part of the field map',
     'For the field maps of every formulation and backend, field_plot shows each requested component once per map: the squared magnitude of exactly that component on exactly the requested slice, '
     'with axes in order and the name of that component, side and top views as requested, nothing else; the map is not changed.',
     IN, 'all field maps, component selections, slices, views, backends',
     'Tests never look at a figure; selections and formulations multiply.',
     ['meent/on_numpy/emsolver/field_distribution.py', 'meent/on_torch/emsolver/field_distribution.py', 'meent/on_jax/emsolver/field_distribution.py'],
     m(('plotting', 'field_plot')), ['images, titles and labels of the figures at the moment they are shown'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
