"""Writes /verif/properties.jsonl."""
import json
import os

M, T, U, K, F, IO = ('empymod/model.py', 'empymod/transform.py',
                     'empymod/utils.py', 'empymod/kernel.py',
                     'empymod/filters.py', 'empymod/io.py')
MA, FD, TM = ('empymod/__main__.py', 'empymod/scripts/fdesign.py',
              'empymod/scripts/tmtemod.py')
P = []


def p(i, title, statement, over, text, tests, files, mech, obs, state=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'observe_at': obs, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w}
                      for n, m, w in state]
    P.append({'id': i, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': tests, 'anchors': a})


p('C01', 'The layered-earth response solves Maxwell\'s equations',
  'For every stack of homogeneous VTI layers (resistivity, anisotropy, '
  'horizontal and vertical electric permittivity and magnetic permeability), '
  'every source and receiver position (also on interfaces) and each of the 36 '
  'electric/magnetic component pairs, the modelled field equals the solution '
  'of Maxwell\'s equations for that model, in sign, amplitude and phase. This '
  'holds in the frequency and in the Laplace domain.',
  ['inputs', 'configurations'],
  'all layer stacks, parameters, source/receiver layers and depths, component '
  'pairs, frequencies and Laplace values',
  'Tests compare a handful of models with stored results that were mostly '
  'computed with the same code; most layer combinations x source layer x '
  'receiver layer x component pair are never executed.',
  [K, M, T, U],
  [('wavenumber-domain kernel', 'empymod/kernel.py: wavenumber, greenfct'),
   ('reflections and fields', 'empymod/kernel.py: reflections, fields'),
   ('angle factors', 'empymod/kernel.py: angle_factor'),
   ('Hankel transform', 'empymod/transform.py: hankel_dlf, dlf'),
   ('layer location', 'empymod/utils.py: get_layer_nr, check_model')],
  ['return value of empymod.dipole'])

p('C02', 'Source-receiver reciprocity',
  'Swapping source and receiver (position, orientation, type) leaves an '
  'electric-electric or magnetic-magnetic response unchanged and flips the '
  'sign of an electric-magnetic one, for every layered model, in the '
  'frequency, Laplace and time domain. It holds for point dipoles and for '
  'arbitrarily rotated finite-length bipoles alike.',
  ['inputs', 'configurations'],
  'all models, position pairs, component pairs, orientations and domains',
  'Tests check reciprocity for single source/receiver pairs in one model.',
  [K, M, U],
  [('swap of component pairs', 'empymod/utils.py: check_ab, get_abs'),
   ('scaling factors', 'empymod/utils.py: get_geo_fact'),
   ('kernel', 'empymod/kernel.py: wavenumber')],
  ['return values of empymod.dipole and empymod.bipole'])

p('C03', 'Fictitious layers and equivalent models change nothing',
  'Splitting any layer at any depth into layers of identical parameters, at, '
  'between, above or below source and receiver, leaves every response '
  'unchanged, however often it is repeated. A stack of identical layers is '
  'the homogeneous full-space.',
  ['inputs', 'histories'],
  'all sequences of layer splits (up to a depth) of all models and positions',
  'Tests check a single split of one model.',
  [K, M, U],
  [('reflection coefficients', 'empymod/kernel.py: reflections'),
   ('up- and downgoing fields', 'empymod/kernel.py: fields'),
   ('full-space shortcut', 'empymod/utils.py: check_model; '
    'empymod/kernel.py: fullspace')],
  ['return value of empymod.dipole'])

p('C04', 'Coordinate-system invariances of the response',
  'Shifting a complete setup in x, y or z, rotating it about the vertical '
  'axis, mirroring it, giving depths (with parameters) in decreasing order, '
  'adding explicit infinite boundaries or rescaling all lengths, resistivities '
  'and frequencies consistently changes the response only by the '
  'corresponding physical sign or factor. A source or receiver exactly on an '
  'interface belongs to the layer above it.',
  ['inputs', 'histories'],
  'all sequences of transformations (up to a depth) of all base setups',
  'Tests check decreasing depth order and one rotation for individual models.',
  [U, K, M],
  [('depth normalisation', 'empymod/utils.py: check_model'),
   ('offsets and angles', 'empymod/utils.py: get_off_ang'),
   ('layer location', 'empymod/utils.py: get_layer_nr'),
   ('angle factors', 'empymod/kernel.py: angle_factor')],
  ['return values of empymod.dipole and empymod.bipole'])

p('C05', 'Vectorised calls equal individual calls; output layout',
  'A call with many sources, receivers, frequencies or times returns, for '
  'each element, the value of the corresponding individual call, for every '
  'choice of the loop option, every input form (scalars, lists, arrays, '
  'shared coordinates) and every Hankel setting. Output has the documented '
  'layout (frequencies/times, receivers, sources), squeezed only if '
  'requested.',
  ['inputs', 'configurations'],
  'all combinations of numbers of sources, receivers, depths and frequencies '
  '(small), loop options, squeeze, Hankel methods, bipole and dipole forms',
  'Tests cover a few size combinations for one component and one method.',
  [M, U, T],
  [('loops over frequency and offset', 'empymod/model.py: fem'),
   ('loops over depths', 'empymod/model.py: bipole'),
   ('flattening order', 'empymod/utils.py: get_off_ang'),
   ('reshape', 'empymod/model.py: bipole, dipole, analytical')],
  ['shape and values returned by dipole, bipole, analytical'])

p('C06', 'Rotated and finite bipoles are superpositions of dipoles',
  'The response of arbitrarily rotated sources and receivers equals the '
  'direction-cosine weighted sum of the point-dipole responses, and that of a '
  'finite-length bipole with n>=3 points the Gauss-Legendre mean along it '
  '(with fewer points: the dipole at its centre). Non-zero strength '
  '(also negative) scales by strength and lengths; electric-current and '
  'magnetic-flux types are the fields times the local horizontal admittivity '
  'or impedivity.',
  ['inputs', 'configurations'],
  'all azimuths and dips (an angular grid incl. several turns), point/finite '
  'forms, integration points, strengths, source and receiver types, shared '
  'and individual depths',
  'Tests check selected angles and one or two finite-length setups.',
  [M, U],
  [('angles, points and weights', 'empymod/utils.py: get_azm_dip'),
   ('required pairs', 'empymod/utils.py: get_abs, get_geo_fact'),
   ('integration and placement', 'empymod/model.py: bipole'),
   ('input forms', 'empymod/utils.py: check_bipole')],
  ['return values of empymod.bipole and empymod.loop'])

p('C07', 'Treatments of the direct field are consistent',
  'Computing the direct field analytically or within the transform gives the '
  'same total response; excluding it removes exactly the analytical '
  'full-space field of the source layer when source and receiver share a '
  'layer, and nothing when they do not. A full-space model gives the '
  'analytical full-space field, or zero without direct field.',
  ['inputs', 'configurations'],
  'all models, layer pairs, component pairs and domains',
  'Tests compare the modes for single pairs; most layer pairs and components '
  'are not executed.',
  [M, K, U],
  [('direct field switch', 'empymod/model.py: fem'),
   ('analytical direct field', 'empymod/kernel.py: fullspace'),
   ('direct field in wavenumber domain', 'empymod/kernel.py: greenfct')],
  ['return values of empymod.dipole for the three xdirect modes'])

p('C08', 'All Hankel transform methods and settings agree',
  'Every Hankel method (digital filters in standard, lagged and splined form, '
  'quadrature with extrapolation, adaptive quadrature) and every tabulated '
  'filter yields the same field within the accuracy of the method, for every '
  'component pair, for offsets in one line or in different directions. '
  'Options given for a method are the ones used.',
  ['configurations', 'inputs'],
  'all methods x filters x interpolation settings x component pairs x '
  'source/receiver arrangements',
  'Tests compare the methods for two component pairs and few filters.',
  [T, F, U, M],
  [('digital filters', 'empymod/transform.py: dlf, get_dlf_points'),
   ('QWE', 'empymod/transform.py: hankel_qwe, qwe'),
   ('quadrature', 'empymod/transform.py: hankel_quad, quad'),
   ('options', 'empymod/utils.py: check_hankel')],
  ['return value of empymod.dipole'])

p('C09', 'Fourier transforms give the impulse and step responses',
  'For every Fourier method (sine and cosine filters in all forms, quadrature '
  'with extrapolation, logarithmic and standard FFT) the time-domain response '
  'equals the exact inverse transform of the frequency response for impulse, '
  'switch-on and switch-off signals. Switch-on plus switch-off is the static '
  'response, and changing number or order of requested times does not change '
  'values.',
  ['inputs', 'configurations'],
  'all methods, filters, settings, signals and time ranges within the range '
  'of the method',
  'Tests compare individual methods for one model and one signal each.',
  [T, M, U, F],
  [('time-domain transform', 'empymod/model.py: tem'),
   ('required frequencies', 'empymod/utils.py: check_time'),
   ('transforms', 'empymod/transform.py: fourier_dlf, fourier_qwe, '
    'fourier_fftlog, fourier_fft')],
  ['time-domain return value of empymod.dipole; fourier routines with known '
   'transform pairs'])

p('C10', 'Source waveforms are convolved with the step response',
  'The response to a piecewise-linear source current equals (with the '
  'established factor -1) the convolution of the derivative of the current '
  'with the chosen step or impulse response of the earth: it is linear in the '
  'current, invariant to a common time shift, unchanged by inserting nodes, '
  'zero before the current starts, and tends to the step response for short '
  'ramps.',
  ['inputs', 'histories'],
  'all waveforms over a small node alphabet, transformed by sequences of '
  'shift, scale, split and superposition',
  'Tests use a single waveform and compare with stored numbers.',
  [U, M],
  [('waveform times and weights', 'empymod/utils.py: check_waveform'),
   ('signal dict', 'empymod/utils.py: check_time'),
   ('application', 'empymod/model.py: tem')],
  ['empymod.bipole/dipole with a signal dict; utils.check_waveform'])

p('C11', 'Results do not depend on earlier calls; inputs stay untouched',
  'The result of a call depends only on its arguments and the explicitly set '
  'minimum values: no sequence of earlier calls (of any routine, successful '
  'or failing) changes it, and minimum values change only by an explicit '
  'request. No call modifies its input arrays, lists, dictionaries, filters '
  'or earlier results.',
  ['histories'],
  'all sequences of calls (up to a depth) over an alphabet that includes '
  'failing calls, shared argument objects and changes of minimum values',
  'Tests call each routine from a fresh state with fresh arguments.',
  [M, U, T, F, FD],
  [('copies of options', 'empymod/utils.py: check_hankel, check_time'),
   ('minimum values', 'empymod/utils.py: set_minimum, get_minimum'),
   ('lazy filter table', 'empymod/filters.py: Hankel, Fourier')],
  ['return values, arguments after the call, get_minimum()'],
  [('minimum values', 'module-wide clamps', 'empymod/utils.py: _min_*'),
   ('filter cache', 'lazily loaded filters', 'empymod/filters.py')])

p('C12', 'Concurrent modelling calls do not disturb each other',
  'Two or more threads calling modelling and filter routines concurrently '
  'obtain exactly the results of the same calls made one after the other, '
  'whatever the interleaving, including the first use of filters. No call '
  'fails or sees a partially loaded filter.',
  ['schedules'],
  'all interleavings of two or three threads with a bounded number of '
  'preemptions at source-line granularity',
  'No test uses threads.',
  [F, U, T, M],
  [('lazy loading of filters', 'empymod/filters.py: Hankel, Fourier'),
   ('module state', 'empymod/utils.py: _min_*')],
  ['return values per thread'],
  [('filter cache', 'lazily loaded filters', 'empymod/filters.py')])

p('C13', 'Verbosity never changes results; silent when asked',
  'The verbosity level changes only what is printed, never the returned '
  'values nor whether a call succeeds, for every routine, method and option. '
  'At level 0 nothing is printed; warnings appear from level 1 on, exactly '
  'when their condition holds.',
  ['configurations', 'inputs'],
  'all verbosity levels x routines x transform methods x input forms',
  'Tests capture the output of individual checks with individual inputs.',
  [U, M, T, TM],
  [('printing', 'empymod/utils.py: check_*, printstartfinish, conv_warning')],
  ['return values and standard output'])

p('C14', 'Saved data and inputs are restored exactly',
  'Loading a saved file returns what was saved: data with the same shape, '
  'real/complex type and values (exact in JSON and in default text form, to '
  'the chosen precision otherwise), including non-finite values and EM arrays, and '
  'the input dictionary. Extra information is stored alongside and never '
  'changes the data.',
  ['inputs'],
  'all shapes (small), types, special values, file formats, info strings and '
  'options',
  'Tests round-trip one array per format.',
  [IO],
  [('data', 'empymod/io.py: save_data, load_data'),
   ('input', 'empymod/io.py: save_input, load_input')],
  ['return values of load_data and load_input; file content'])

p('C15', 'Truncated files and failing writes never yield wrong data',
  'Loading a data or input file that was cut short at any byte (crash or full '
  'disk while writing), or whose reading fails at any point, raises an error '
  'or returns the complete saved content, never different data. A failing '
  'write raises an error.',
  ['crash_points', 'fault_sequences'],
  'every prefix of every written file; every failing read, write and open',
  'No test looks at damaged files or failing operations.',
  [IO],
  [('data files', 'empymod/io.py: load_data, save_data'),
   ('input files', 'empymod/io.py: load_input'),
  ],
  ['return value or exception of the load routines'])

p('C16', 'The command line equals the Python interface',
  'Running a modelling routine through the command-line interface with an '
  'input file writes the same result as calling it from Python with that '
  'input, for every routine, option, verbosity and output format. '
  'Invalid invocations fail without writing an output file.',
  ['configurations', 'inputs'],
  'all routines x output formats x verbosity x input dictionaries',
  'Tests run a single routine through the command line.',
  [MA, IO],
  [('argument parsing and dispatch', 'empymod/__main__.py: main, run')],
  ['output file, standard output, exit code'])

p('C17', 'Invalid input is rejected, borderline input is clamped',
  'Every malformed argument (wrong shape, size, type, non-monotonic or '
  'mismatching depths and parameters, unknown component pair, method, signal '
  'or solution) raises a TypeError, ValueError or AttributeError instead of '
  'returning numbers. Frequencies, times, offsets and resistivities below '
  'their minimum are computed exactly as at that minimum.',
  ['inputs'],
  'all single faults of every argument in every routine, and all borderline '
  'values',
  'Tests check one malformed value for some of the arguments.',
  [U, M],
  [('checks', 'empymod/utils.py: check_*, _check_shape, _check_min'),
   ('minimum values', 'empymod/utils.py: set_minimum')],
  ['exception or return value'])

p('C18', 'Keyword options: unknown ones raise, defaults are as documented',
  'An unknown keyword raises a TypeError and never passes silently; a known '
  'but unused one only triggers a printed warning; passing an option its '
  'documented default (also in another accepted spelling or as positional '
  'argument) gives the identical result. Unknown transform options warn and '
  'are ignored.',
  ['configurations', 'inputs'],
  'all routines x all options x {unknown, unused, default, alternative form}',
  'Tests check individual options.',
  [U, M],
  [('keywords', 'empymod/utils.py: get_kwargs'),
   ('transform options', 'empymod/utils.py: check_hankel, check_time')],
  ['exception, printed warning or return value'])

p('C19', 'Digital filters are intact and survive saving and loading',
  'Every catalogued filter is available, has consistent abscissae, factor and '
  'weights, and integrates the known transform pairs to its accuracy. Saving '
  'a filter and loading it returns the same filter, for every type and '
  'directory form.',
  ['inputs', 'configurations'],
  'all filters of the catalogue x transform pairs; all filter kinds x saving '
  'options',
  'Tests check the first weights of some filters and one round trip.',
  [F],
  [('catalogue', 'empymod/filters.py: Hankel, Fourier'),
   ('files', 'empymod/filters.py: DigitalFilter.tofile, fromfile')],
  ['attributes of the filters; files'])

p('C20', 'Filter design returns the optimum of the searched grid',
  'Designing a filter over a grid of spacings and shifts returns the best '
  'grid point by the chosen criterion and a filter that satisfies the '
  'defining linear system for its transform pairs; the result does not depend '
  'on the order of the grid. Saved designs load to the same result.',
  ['inputs', 'configurations'],
  'all small grids, transform kinds, criteria and orders',
  'Tests design few filters on one grid.',
  [FD],
  [('grid search', 'empymod/scripts/fdesign.py: design, _get_min_val'),
   ('weights', 'empymod/scripts/fdesign.py: _calculate_filter'),
   ('files', 'empymod/scripts/fdesign.py: save_filter, load_filter')],
  ['return values of design and load_filter'])

p('C21', 'TM/TE decomposition adds up to the full response',
  'Within one layer, direct field plus the TM and TE parts (each split by '
  'propagation direction at receiver and source) add up to the full inline '
  'response (component pair 11). Each part is the contribution its name says '
  '(mode, direction at receiver, direction at source), also if the setup is '
  'mirrored or shifted. Unsupported configurations are rejected.',
  ['inputs', 'configurations'],
  'all layered models with source and receiver in any one layer, positions '
  'and frequencies',
  'Tests compare one model and the 11 component.',
  [TM, K],
  [('decomposition', 'empymod/scripts/tmtemod.py: dipole, greenfct, fields')],
  ['return value of scripts.tmtemod.dipole'])

p('C22', 'Wavenumber-domain output equals the kernel of the response',
  'The wavenumber-domain routine returns, for every component pair, the '
  'kernels whose Hankel transform with the documented angle factors is the '
  'space-domain response, for all wavenumbers and frequencies individually '
  'and together.',
  ['inputs', 'configurations'],
  'all models, component pairs, source/receiver layers, sizes',
  'Tests compare two components with one model.',
  [M, K, U],
  [('wavenumber routine', 'empymod/model.py: dipole_k'),
   ('kernel', 'empymod/kernel.py: wavenumber')],
  ['return value of empymod.dipole_k'])

p('C23', 'In-phase and quadrature are the normalised secondary field',
  'In-phase and quadrature values are the real and imaginary part of the '
  'scaled ratio of the secondary to the primary field of the same coils in '
  'the first layer (co-planar primary field), for every coil orientation, '
  'height, frequency and offset; a homogeneous whole-space gives zero.',
  ['inputs', 'configurations'],
  'all component pairs, models, heights, scales, input forms',
  'Tests use one setup per routine form.',
  [M],
  [('ratio', 'empymod/model.py: ip_and_q')],
  ['return value of empymod.model.ip_and_q'])

p('C24', 'Analytical solutions are exact and mutually consistent',
  'The analytical full-space and half-space solutions equal independent '
  'closed forms or the numerical response of the corresponding model for '
  'every supported component, domain and signal; split and TE/TM variants add '
  'up to the complete solution. Unsupported combinations are rejected.',
  ['inputs', 'configurations'],
  'all solutions x component pairs x domains x signals x geometries',
  'Tests check selected components with stored results.',
  [M, K, U],
  [('full-space', 'empymod/kernel.py: fullspace'),
   ('half-space', 'empymod/kernel.py: halfspace'),
   ('restrictions', 'empymod/utils.py: check_solution')],
  ['return value of empymod.analytical'])

p('C25', 'Missing convergence is always reported',
  'Whenever any of the quadratures needed for a call (Hankel or Fourier, real '
  'or imaginary part, any offset, frequency, source or receiver) does not '
  'reach its tolerance within its limits, a warning is printed if warnings '
  'are enabled; if all converge, none is.',
  ['inputs', 'fault_sequences', 'configurations'],
  'all placements of a non-converging element among the quadratures of a '
  'call, for all methods and routines',
  'Tests provoke a single non-converging case per method.',
  [T, M, U],
  [('convergence flags', 'empymod/transform.py: quad, qwe, hankel_*'),
   ('accumulation', 'empymod/model.py: fem, tem, bipole'),
   ('warning', 'empymod/utils.py: conv_warning')],
  ['standard output'])

p('C26', 'EM arrays provide amplitude and phase of the data',
  'An EM array holds the data unchanged; its amplitude is the modulus and its '
  'phase the (optionally unwrapped, lead or lag defined, degree or radian) '
  'argument, and amplitude and phase reproduce the data. It behaves like a '
  'plain array otherwise, and querying never changes it.',
  ['inputs', 'histories'],
  'all small arrays over a complex alphabet, all options, sequences of calls',
  'Tests evaluate three scalars and one array.',
  [U],
  [('EM array', 'empymod/utils.py: EMArray')],
  ['EMArray.amp, EMArray.pha'])

p('C27', 'User hooks for material parameters and filtering are honoured',
  'User-provided functions for the electric and magnetic material parameters '
  'and for a band-pass filter are called with the actual model, frequencies '
  'and fields, and their results determine the response, in every routine '
  'that documents them, frequency and time domain; functions that return the '
  'standard parameters change nothing.',
  ['programs', 'inputs', 'configurations'],
  'all hook kinds x routines x domains x transform methods',
  'Tests run one Cole-Cole hook per routine.',
  [M, U],
  [('hooks', 'empymod/model.py: bipole, dipole, analytical, dipole_k')],
  ['return values; arguments the hooks receive'])

p('C28', 'Radar traces are the filtered transform of the response',
  'The ground-penetrating-radar routine returns the inverse Fourier transform '
  'of the frequency response times the wavelet of the given centre frequency, '
  'with the time-power gain applied if given and no gain otherwise, per '
  'receiver as in an individual call.',
  ['inputs', 'configurations'],
  'all component pairs, gains, sizes and models of an alphabet',
  'Tests compare one trace with a stored one.',
  [M, T],
  [('radar', 'empymod/model.py: gpr'),
   ('FFT', 'empymod/transform.py: fourier_fft')],
  ['return value of empymod.gpr'])

p('C29', 'Equivalent entry points give equal results',
  'The same physical setup yields the same result through every entry point: '
  'point-dipole, rotated bipole, deprecated loop routine, in-terms-of-layers '
  'low-level routine, names and filters given as string or object, and '
  'deprecated signatures.',
  ['programs', 'configurations'],
  'all component pairs, models and entry points of an alphabet',
  'Tests compare few pairs of entry points.',
  [M, U, K, T],
  [('entry points', 'empymod/model.py: bipole, dipole, loop, fem, tem'),
   ('deprecated signatures', 'empymod/utils.py: check_time, check_bipole')],
  ['return values'])

p('C30', 'Compiled and interpreted kernels agree',
  'The just-in-time compiled kernels give the same results as their '
  'interpreted Python source for every kernel routine, input shape and type, '
  'so that results do not depend on compilation settings.',
  ['configurations', 'inputs'],
  'all layer numbers, layer pairs, component pairs and data types of an '
  'alphabet',
  'Tests only ever run the compiled variant.',
  [K],
  [('compiled kernels', 'empymod/kernel.py: wavenumber, greenfct, '
    'reflections, fields')],
  ['return value of empymod.dipole'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x)+'\n')
    print(len(P))
